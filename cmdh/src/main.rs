//! Drives the crate-private functions of /repo/src/cmd/util.rs, compiled from the file itself.
//! usage: wimbd-cmdh CHECK SEED TIER DIR ; the last line printed is JSON (see the harness crate).
#![allow(dead_code, unused_imports, unused_variables)]
#[path = "/repo/src/io.rs"]
pub mod io;
#[path = "/repo/src/progress.rs"]
pub mod progress;
#[path = "/repo/src/cmd/util.rs"]
mod cutil;

use std::collections::BTreeSet;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::atomic::*;
use std::sync::{Arc, Mutex};

use anyhow::{anyhow, Result};
use cutil::*;

struct Rng(u64);
impl Rng {
    fn new(s: u64) -> Self { Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    fn range(&mut self, a: u64, b: u64) -> u64 { a + self.below(b - a + 1) }
    fn chance(&mut self, a: u64, b: u64) -> bool { self.below(b) < a }
}
struct Report { evaluations: u64, distinct: BTreeSet<String>, samples: Vec<String>, violation: Option<String> }
impl Report {
    fn eval(&mut self, k: &str) {
        self.evaluations += 1;
        if self.distinct.insert(k.to_string()) && self.samples.len() < 4 { self.samples.push(k.chars().take(400).collect()); }
    }
    fn fail(&mut self, m: String) { if self.violation.is_none() { self.violation = Some(m); } }
}
fn esc(s: &str) -> String { serde_json::to_string(s).unwrap() }

// ------------------------------------------------------------------ sizes
fn unit(u: &str) -> Option<u128> {
    Some(match u {
        "B" => 1,
        "KiB" => 1 << 10, "MiB" => 1 << 20, "GiB" => 1 << 30, "TiB" => 1 << 40, "PiB" => 1 << 50,
        "KB" => 1000, "MB" => 1_000_000, "GB" => 1_000_000_000, "TB" => 1_000_000_000_000,
        _ => return None,
    })
}
fn c25(rng: &mut Rng, rep: &mut Report, deep: bool) {
    let mut cases: Vec<(String, Option<u128>)> = vec![];
    let mut nums: Vec<u128> = vec![0, 1, 2, 3, 4, 7, 8, 10, 15, 16, 100, 512, 999, 1000, 1023, 1024, 4096, 123456, 17179869183, 17179869184, 18446744073709551615, 18446744073709551616];
    for _ in 0..(if deep { 3000 } else { 300 }) { let s = rng.below(64); nums.push((rng.next() >> s) as u128); }
    let fit = |x: u128| if x <= u64::MAX as u128 { Some(x) } else { None };
    for &n in &nums {
        cases.push((format!("{n}"), fit(n << 30)));
        for u in ["B", "KiB", "MiB", "GiB", "TiB", "PiB", "KB", "MB", "GB", "TB"] {
            cases.push((format!("{n}{u}"), fit(n * unit(u).unwrap())));
            cases.push((format!("{n} {u}"), fit(n * unit(u).unwrap())));
        }
        cases.push((format!("-{n}"), None));
        cases.push((format!("-{n}GiB"), None));
        cases.push((format!("{n}Q"), None));
        cases.push((format!("{n}GiBs"), None));
        cases.push((format!("x{n}"), None));
        cases.push((format!("{n}é"), None));
    }
    // fractions that are exact in binary or decimal
    for (a, v) in [("0.5", 1u128 << 29), ("1.5", 3 << 29), ("0.25", 1 << 28), ("2.0", 2 << 30), ("10.125", (10 << 30) + (1 << 27)), ("0.0", 0)] {
        cases.push((a.to_string(), Some(v)));
        cases.push((format!("{a}GiB"), Some(v)));
    }
    for (a, v) in [("1.5KiB", 1536u128), ("0.5MiB", 524288), ("2.5KB", 2500)] { cases.push((a.to_string(), Some(v))); }
    // letters that are no unit: an exponent; separators do not matter
    for (a, v) in [("1e5", 100_000u128), ("2e3B", 2000), ("1E2", 100), ("25e-1KB", 2500), ("1_024", 1024 << 30), ("1 0", 10 << 30), ("1_000 B", 1000)] { cases.push((a.to_string(), Some(v))); }
    for bad in ["", " ", "GiB", "B", "one", "1..2", "1.2.3", "--1", "1-", "+-1", "1 2x", "1,5", "$5", "5%", "1GiB 2", "½", "−1", "∞", "nan", "inf", "1/2", "()", "\u{0}"] {
        cases.push((bad.to_string(), None));
    }
    for (s, want) in cases {
        let got = parse_size_default_to_gb(&s).ok().map(|x| x as u128);
        rep.eval(&format!("{s:?} -> {got:?}"));
        if got != want { return rep.fail(format!("size {s:?} parsed as {got:?}, expected {want:?}")); }
    }
}

// ------------------------------------------------------------------ process_file
fn gz(path: &Path, content: &[u8]) {
    let mut e = flate2::write::GzEncoder::new(std::fs::File::create(path).unwrap(), flate2::Compression::fast());
    e.write_all(content).unwrap();
    e.finish().unwrap();
}
#[derive(Clone, Debug)]
enum L { Text(String), Null, Missing, Bad, BadUtf8, Blank }
fn render(l: &L) -> Vec<u8> {
    match l {
        L::Text(t) => format!("{{\"text\":{}}}", esc(t)).into_bytes(),
        L::Null => b"{\"text\":null}".to_vec(),
        L::Missing => b"{\"id\":1}".to_vec(),
        L::Bad => b"{\"text\":\"x\"".to_vec(),
        L::BadUtf8 => b"{\"text\":\"\xff\"}".to_vec(),
        L::Blank => b"".to_vec(),
    }
}
fn c18(rng: &mut Rng, rep: &mut Report, deep: bool, dir: &Path) {
    for round in 0..(if deep { 5000 } else { 600 }) {
        let n = rng.below(9) as usize;
        let mut lines: Vec<L> = vec![];
        for i in 0..n {
            lines.push(match rng.below(30) { 0 => L::Bad, 1 => L::BadUtf8, 2 => L::Blank, 3..=5 => L::Null, 6..=8 => L::Missing, _ => L::Text(format!("t{i} é")) });
        }
        let last_nl = rng.chance(1, 2);
        let crlf = rng.chance(1, 5);
        let mut content = vec![];
        let mut sizes = vec![];
        for (i, l) in lines.iter().enumerate() {
            let mut b = render(l);
            if i + 1 < n || last_nl { if crlf { b.push(b'\r'); } b.push(b'\n'); }
            sizes.push(b.len());
            content.extend(b);
        }
        // an empty final line without terminator does not exist
        let real = if n > 0 && sizes[n - 1] == 0 { n - 1 } else { n };
        let path = dir.join("f.json.gz");
        gz(&path, &content);
        let limit = if rng.chance(1, 2) { Some(rng.below(10) as usize) } else { None };
        let fail_at = if rng.chance(1, 6) { Some(rng.range(1, 9) as usize) } else { None };
        let exec = rng.chance(1, 2);
        let seen: Arc<Mutex<Vec<(Option<String>, usize)>>> = Arc::new(Mutex::new(vec![]));
        let done = Arc::new(AtomicUsize::new(0));
        let m = limit.unwrap_or(usize::MAX).min(real);
        let mut want = vec![];
        let mut ok = true;
        for (i, l) in lines[..m].iter().enumerate() {
            match l {
                L::Text(t) => want.push((Some(t.clone()), i + 1)),
                L::Null | L::Missing => want.push((None, i + 1)),
                _ => { ok = false; break; }
            }
            if fail_at == Some(i + 1) { ok = false; break; }
        }
        let what = format!("lines={lines:?} final newline={last_nl} crlf={crlf} limit={limit:?} fail_at={fail_at:?} executor={exec}");
        let f = {
            let seen = seen.clone();
            move |d: DataInstance, _: &Path, n: usize, acc: &mut usize| -> Result<()> {
                *acc += 1;
                seen.lock().unwrap().push((d.text, n));
                if fail_at == Some(n) { return Err(anyhow!("told to fail")); }
                Ok(())
            }
        };
        let cb = { let done = done.clone(); move |a: usize| -> Result<()> { done.fetch_add(1 + 1000 * a, Ordering::SeqCst); Ok(()) } };
        let total_bytes: usize = sizes[..m].iter().sum();
        let res: std::result::Result<(usize, usize), String> = if exec {
            let ex = DataExecutor::new(&[path.clone()], Some(rng.range(0, 3) as usize), limit, "t", true).unwrap();
            let r = ex.execute_with_callback(&path, f, || Ok(0usize), cb).and_then(|_| ex.join());
            r.map(|_| (ex.total_lines.load(Ordering::SeqCst), ex.total_bytes.load(Ordering::SeqCst))).map_err(|e| e.to_string())
        } else {
            process_file(f, || Ok(0usize), cb, None, &path, limit, Arc::new(AtomicBool::new(false))).map_err(|e| e.to_string())
        };
        rep.eval(&what);
        let seen = seen.lock().unwrap().clone();
        if seen != want { return rep.fail(format!("lines handed over: {seen:?}, expected {want:?}: {what}")); }
        match res {
            Ok((l, b)) => {
                if !ok { return rep.fail(format!("succeeded although a line within the limit cannot be processed: {what}")); }
                if l != m || b != total_bytes { return rep.fail(format!("reported {l} lines and {b} bytes, expected {m} and {total_bytes}: {what}")); }
                if done.load(Ordering::SeqCst) != 1 + 1000 * m { return rep.fail(format!("callback ran {} times (accumulated {}) instead of once with {m}: {what}", done.load(Ordering::SeqCst) % 1000, done.load(Ordering::SeqCst) / 1000)); }
            }
            Err(e) => {
                if ok { return rep.fail(format!("failed ({e}) although every line within the limit is fine: {what}")); }
                if done.load(Ordering::SeqCst) != 0 { return rep.fail(format!("the result of a failed file was handed over: {what}")); }
            }
        }
    }
}

// ------------------------------------------------------------------ failures and retries
fn c19(rng: &mut Rng, rep: &mut Report, deep: bool, dir: &Path) {
    std::panic::set_hook(Box::new(|_| {}));
    for round in 0..(if deep { 3000 } else { 400 }) {
        let nf = rng.range(1, 5) as usize;
        let paths: Vec<PathBuf> = (0..nf).map(|i| dir.join(format!("p{i}.json.gz"))).collect();
        let mut kinds = vec![];
        let mut total = 0usize;
        for p in &paths {
            let n = rng.below(6) as usize;
            gz(p, &b"{\"text\":\"a\"}\n".repeat(n));
            total += n;
            // 0 fine, 1 error in line 1, 2 panic in line 1, 3 error in callback, 4 panic in callback, 5 error in context, 6 missing, 7 panic in context
            let k = if rng.chance(2, 3) { 0 } else { rng.range(1, 7) };
            let k = if n == 0 && (k == 1 || k == 2) { 0 } else { k };
            if k == 6 { std::fs::remove_file(p).unwrap(); }
            kinds.push(k);
        }
        let workers = rng.below(6) as usize;
        let retries = rng.below(3) as usize;
        let what = format!("{nf} files, kinds={kinds:?} (0 fine 1 line error 2 panic 3 callback error 4 callback panic 5 context error 6 missing 7 context panic), workers={workers} retries={retries}");
        let mut ex = DataExecutor::new(&paths, Some(workers), None, "t", true).unwrap();
        ex.max_retries = retries;
        let count = Arc::new(AtomicUsize::new(0));
        let attempts: Vec<Arc<AtomicUsize>> = (0..nf).map(|_| Arc::new(AtomicUsize::new(0))).collect();
        let mut submit_err = false;
        for (i, p) in paths.iter().enumerate() {
            let k = kinds[i];
            let c = count.clone();
            let at = attempts[i].clone();
            let r = ex.execute_with_callback(
                p,
                move |_: DataInstance, _: &Path, _: usize, a: &mut usize| -> Result<()> {
                    if k == 1 { return Err(anyhow!("line")); }
                    if k == 2 { panic!("line"); }
                    *a += 1;
                    Ok(())
                },
                move || -> Result<usize> {
                    at.fetch_add(1, Ordering::SeqCst);
                    if k == 5 { return Err(anyhow!("context")); }
                    if k == 7 { panic!("context"); }
                    Ok(0)
                },
                move |a: usize| -> Result<()> {
                    if k == 3 { return Err(anyhow!("callback")); }
                    if k == 4 { panic!("callback"); }
                    c.fetch_add(a, Ordering::SeqCst);
                    Ok(())
                },
            );
            if r.is_err() {
                submit_err = true;
                if k != 6 { return rep.fail(format!("file {i} was refused: {what}")); }
                break;
            } else if k == 6 {
                // may also be reported when joining
            }
        }
        let j = ex.join();
        rep.eval(&what);
        let bad = kinds.iter().any(|&k| k != 0);
        if !bad && (j.is_err() || submit_err) { return rep.fail(format!("failed without a reason: {:?}: {what}", j.err().map(|e| e.to_string()))); }
        if bad && j.is_ok() && !submit_err { return rep.fail(format!("a file failed but everything was reported fine: {what}")); }
        if !bad {
            if count.load(Ordering::SeqCst) != total { return rep.fail(format!("{} lines counted of {total}: {what}", count.load(Ordering::SeqCst))); }
            if ex.total_lines.load(Ordering::SeqCst) != total { return rep.fail(format!("{} lines reported of {total}: {what}", ex.total_lines.load(Ordering::SeqCst))); }
        }
        for (i, a) in attempts.iter().enumerate() {
            let a = a.load(Ordering::SeqCst);
            if a > retries + 1 || (kinds[i] == 0 && a > 1) || (!bad && a != 1) { return rep.fail(format!("file {i} was attempted {a} times: {what}")); }
        }
    }
    // a panic that is over just as the executor is joined
    if rep.violation.is_none() {
        let p = dir.join("race.json.gz");
        gz(&p, b"");
        for round in 0..(if deep { 60000 } else { 6000 }) {
            let ex = DataExecutor::new(&[p.clone()], Some(1), None, "t", true).unwrap();
            let up = Arc::new(AtomicBool::new(false));
            let u = up.clone();
            ex.execute_with_callback(
                &p,
                |_: DataInstance, _: &Path, _: usize, _: &mut usize| -> Result<()> { Ok(()) },
                move || -> Result<usize> { u.store(true, Ordering::SeqCst); panic!("context") },
                |_: usize| -> Result<()> { Ok(()) },
            ).unwrap();
            while !up.load(Ordering::SeqCst) { std::hint::spin_loop(); }
            for _ in 0..rng.below(1500) * 8 { std::hint::spin_loop(); }
            if ex.join().is_ok() { return rep.fail(format!("one file, one worker, the context panics: everything was reported fine (round {round})")); }
        }
        rep.eval("a panic that is over just as the executor is joined");
    }
    let _ = std::panic::take_hook();
}

fn c20(rng: &mut Rng, rep: &mut Report, deep: bool, dir: &Path) {
    for round in 0..(if deep { 4000 } else { 500 }) {
        let nf = rng.range(1, 3) as usize;
        let paths: Vec<PathBuf> = (0..nf).map(|i| dir.join(format!("r{i}.json.gz"))).collect();
        let retries = rng.below(5) as usize;
        let mut plan = vec![];
        let mut total = 0;
        for p in &paths {
            let n = rng.range(1, 6) as usize;
            gz(p, &b"{\"text\":\"a\"}\n".repeat(n));
            let fails = if rng.chance(1, 3) { 0 } else { rng.below(retries as u64 + 2) as usize };
            let line = rng.range(1, n as u64 + 1) as usize; // n+1: the callback fails
            plan.push((n, fails, line));
            total += n;
        }
        let workers = rng.range(1, 3) as usize;
        let what = format!("files (lines, failing attempts, failing line; one past the end: at hand-over)={plan:?} retries={retries} workers={workers}");
        let mut ex = DataExecutor::new(&paths, Some(workers), None, "t", true).unwrap();
        ex.max_retries = retries;
        let count = Arc::new(AtomicUsize::new(0));
        let attempts: Vec<Arc<AtomicUsize>> = (0..nf).map(|_| Arc::new(AtomicUsize::new(0))).collect();
        let handed: Vec<Arc<AtomicUsize>> = (0..nf).map(|_| Arc::new(AtomicUsize::new(0))).collect();
        for (i, p) in paths.iter().enumerate() {
            let (n, fails, line) = plan[i];
            let (a1, a2, a3, c, hd) = (attempts[i].clone(), attempts[i].clone(), attempts[i].clone(), count.clone(), handed[i].clone());
            ex.execute_with_callback(
                p,
                move |_: DataInstance, _: &Path, k: usize, acc: &mut usize| -> Result<()> {
                    if k == line && a1.load(Ordering::SeqCst) <= fails { return Err(anyhow!("transient")); }
                    *acc += 1;
                    Ok(())
                },
                move || -> Result<usize> { a2.fetch_add(1, Ordering::SeqCst); Ok(0) },
                move |acc: usize| -> Result<()> {
                    if line == n + 1 && a3.load(Ordering::SeqCst) <= fails { return Err(anyhow!("transient")); }
                    c.fetch_add(acc, Ordering::SeqCst);
                    hd.fetch_add(1, Ordering::SeqCst);
                    Ok(())
                },
            ).unwrap();
        }
        let j = ex.join();
        rep.eval(&what);
        let fine = plan.iter().all(|&(_, f, _)| f <= retries);
        if fine && j.is_err() { return rep.fail(format!("failed although every file succeeds within its retries: {}: {what}", j.err().unwrap())); }
        if !fine && j.is_ok() { return rep.fail(format!("succeeded although a file fails more often than it may be retried: {what}")); }
        if fine {
            if count.load(Ordering::SeqCst) != total || ex.total_lines.load(Ordering::SeqCst) != total {
                return rep.fail(format!("{} lines counted and {} reported, {total} exist: {what}", count.load(Ordering::SeqCst), ex.total_lines.load(Ordering::SeqCst)));
            }
            for i in 0..nf {
                let (a, h) = (attempts[i].load(Ordering::SeqCst), handed[i].load(Ordering::SeqCst));
                if a != plan[i].1 + 1 || h != 1 { return rep.fail(format!("file {i}: {a} attempts and {h} hand-overs: {what}")); }
            }
        }
        for i in 0..nf {
            let a = attempts[i].load(Ordering::SeqCst);
            if a > retries + 1 { return rep.fail(format!("file {i} was attempted {a} times with {retries} retries: {what}")); }
        }
    }
}

// ------------------------------------------------------------------ path expansion
fn c24(rng: &mut Rng, rep: &mut Report, deep: bool, dir: &Path) {
    const DIRS: &[&str] = &["d", "[a]", "x*y", "q?z", "sp ace", "é", "{b}", "!n", "a-b", "[!c]", "**", "d.json.gz.d", "-w", ".hid", "a]b", "[", "#"];
    const NAMES: &[&str] = &["a.json.gz", "b.jsonl.gz", "c.json.1.gz", "é.json.gz", ".h.json.gz", "[x].json.gz", "*.json.gz", "json.gz", "d.gz", "e.json", "f.json.gz.bak", "g.JSON.gz", "h.json.gzz", "i.json gz", "j.jsongz", "k.json.gz", ".json.gz", "l.json.zst", "m.tar.gz", "n.jsonl.tar.gz"];
    fn matches(n: &str) -> bool {
        // '*.json*.gz'
        if let Some(stem) = n.strip_suffix(".gz") { stem.contains(".json") } else { false }
    }
    for round in 0..(if deep { 800 } else { 120 }) {
        let root = dir.join(format!("t{round}"));
        std::fs::create_dir_all(&root).unwrap();
        let mut args: Vec<PathBuf> = vec![];
        let mut groups: Vec<Option<BTreeSet<PathBuf>>> = vec![];
        let nargs = rng.range(1, 3) as usize;
        for a in 0..nargs {
            if rng.chance(1, 4) {
                let p = root.join(["plain.txt", "missing.json.gz", "f.json.gz", "x[1].json.gz"][rng.below(4) as usize]);
                args.push(p);
                groups.push(None);
                continue;
            }
            let top = root.join(format!("{a}{}", DIRS[rng.below(DIRS.len() as u64) as usize]));
            std::fs::create_dir_all(&top).unwrap();
            let mut want = BTreeSet::new();
            let mut dirs = vec![top.clone()];
            for _ in 0..rng.below(4) {
                let base = dirs[rng.below(dirs.len() as u64) as usize].clone();
                let d = base.join(DIRS[rng.below(DIRS.len() as u64) as usize]);
                std::fs::create_dir_all(&d).unwrap();
                dirs.push(d);
            }
            for _ in 0..rng.below(7) {
                let n = NAMES[rng.below(NAMES.len() as u64) as usize];
                let p = dirs[rng.below(dirs.len() as u64) as usize].join(n);
                std::fs::write(&p, b"").unwrap();
                if matches(n) { want.insert(p); }
            }
            args.push(top);
            groups.push(Some(want));
        }
        let err = groups.iter().any(|g| matches!(g, Some(s) if s.is_empty()));
        let what = format!("arguments {args:?}, files {groups:?}");
        rep.eval(&what);
        match expand_dirs(&args) {
            Err(e) => if !err { return rep.fail(format!("failed: {e}: {what}")); },
            Ok(v) => {
                if err { return rep.fail(format!("a directory without data files is accepted, got {v:?}: {what}")); }
                let mut at = 0;
                for (i, g) in groups.iter().enumerate() {
                    match g {
                        None => { if v.get(at) != Some(&args[i]) { return rep.fail(format!("got {v:?}: {what}")); } at += 1; }
                        Some(s) => {
                            let part: Vec<PathBuf> = v.iter().skip(at).take(s.len()).cloned().collect();
                            let set: BTreeSet<PathBuf> = part.iter().cloned().collect();
                            if &set != s || part.len() != s.len() { return rep.fail(format!("got {v:?}: {what}")); }
                            at += s.len();
                        }
                    }
                }
                if at != v.len() { return rep.fail(format!("got more than asked for, {v:?}: {what}")); }
            }
        }
        std::fs::remove_dir_all(&root).unwrap();
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (check, seed, deep, dir) = (a[1].as_str(), a[2].parse::<u64>().unwrap_or(1), a[3] == "thorough", PathBuf::from(&a[4]));
    let mut rng = Rng::new(seed);
    let mut rep = Report { evaluations: 0, distinct: BTreeSet::new(), samples: vec![], violation: None };
    match check {
        "C25" => c25(&mut rng, &mut rep, deep),
        "C18" => c18(&mut rng, &mut rep, deep, &dir),
        "C19" => c19(&mut rng, &mut rep, deep, &dir),
        "C20" => c20(&mut rng, &mut rep, deep, &dir),
        "C24" => c24(&mut rng, &mut rep, deep, &dir),
        _ => std::process::exit(2),
    }
    let s: Vec<String> = rep.samples.iter().map(|s| esc(s)).collect();
    println!("{{\"evaluations\":{},\"distinct\":{},\"samples\":[{}],\"violation\":{}}}", rep.evaluations, rep.distinct.len(), s.join(","),
        rep.violation.as_ref().map(|v| esc(v)).unwrap_or("null".into()));
}
