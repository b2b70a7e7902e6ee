//! Concrete oracles for the library: they drive the public API of the crate in /repo and compare
//! with independent models.  They are the bounded layer under the deductive checks (and the replay
//! of failed obligations).  usage: harness CHECK SEED TIER [ARGS]; the last line printed is JSON.
#![allow(dead_code)]
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::io::Write;
use std::rc::Rc;
use std::sync::atomic::*;
use std::sync::{Arc, Barrier};

use unicode_segmentation::UnicodeSegmentation;
use wimbd::ngrams::{ngrams, Ngram, NgramCounter, TopKNgrams};
use wimbd::tokens::tokenize;

// ---------------------------------------------------------------------------------- utilities
pub struct Rng(u64);
impl Rng {
    fn new(s: u64) -> Self {
        Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

pub struct Report {
    evaluations: u64,
    distinct: BTreeSet<u64>,
    samples: Vec<String>,
    violation: Option<String>,
}
impl Report {
    fn new() -> Self {
        Report { evaluations: 0, distinct: BTreeSet::new(), samples: vec![], violation: None }
    }
    fn eval(&mut self, key: &str, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            let mut h: u64 = 0xcbf29ce484222325;
            for b in key.bytes() {
                h = (h ^ b as u64).wrapping_mul(0x100000001b3);
            }
            if self.distinct.insert(h) && self.samples.len() < 5 {
                self.samples.push(key.chars().take(300).collect());
            }
        }
    }
    fn fail(&mut self, msg: String) {
        if self.violation.is_none() {
            self.violation = Some(msg);
        }
    }
    fn bad(&self) -> bool {
        self.violation.is_some()
    }
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn words(rng: &mut Rng, n: usize, maxlen: u64) -> Vec<Vec<String>> {
    // n distinct ngrams
    let mut seen = BTreeSet::new();
    let mut out = vec![];
    let mut tries = 0;
    while out.len() < n {
        tries += 1;
        let len = rng.range(1, maxlen) as usize;
        let g: Vec<String> = (0..len).map(|_| format!("w{}", rng.below(4 + tries / 20))).collect();
        if seen.insert(g.clone()) {
            out.push(g);
        }
    }
    out
}

// ---------------------------------------------------------------------------------- counter
macro_rules! counter_checks {
    ($mod:ident, $A:ty, $T:ty) => {
        mod $mod {
            use super::*;
            pub type C = NgramCounter<$A>;
            pub fn mk(size: usize, h: usize, seed: u64, init: $T) -> C {
                NgramCounter::<$A>::new(size, h, Some(seed), init).unwrap()
            }
            /// number of cells touched by the ngrams with the given indices
            pub fn nz(size: usize, h: usize, seed: u64, gs: &[Vec<String>], ix: &[usize]) -> u64 {
                let c = mk(size, h, seed, 0);
                for &i in ix {
                    c.increment(&gs[i][..], 1);
                }
                c.nonzero()
            }
            /// ngrams with a private cell that only one of their hash functions hits
            pub fn exact(size: usize, h: usize, seed: u64, gs: &[Vec<String>]) -> Vec<bool> {
                let all: Vec<usize> = (0..gs.len()).collect();
                let n_all = nz(size, h, seed, gs, &all);
                (0..gs.len())
                    .map(|i| {
                        let others: Vec<usize> = all.iter().cloned().filter(|&j| j != i).collect();
                        nz(size, h, seed, gs, &[i]) == h as u64 && n_all > nz(size, h, seed, gs, &others)
                    })
                    .collect()
            }
            fn bump(c: &C, g: &[String], by: $T, how: u64) -> $T {
                match how {
                    0 => c.increment(g, by),
                    1 => {
                        // a deque whose ring buffer wraps
                        let mut d: VecDeque<String> = VecDeque::with_capacity(g.len());
                        for x in g {
                            d.push_back(format!("x{x}"));
                        }
                        for x in g {
                            d.pop_front();
                            d.push_back(x.clone());
                        }
                        c.increment(&d, by)
                    }
                    _ => {
                        let v: Vec<&str> = g.iter().map(|s| s.as_str()).collect();
                        c.increment(&v[..], by)
                    }
                }
            }
            fn amount(rng: &mut Rng, big: bool) -> $T {
                if big {
                    match rng.below(5) {
                        0 => <$T>::MAX,
                        1 => <$T>::MAX - rng.below(4) as $T,
                        2 => <$T>::MAX / 2 + 1,
                        3 => <$T>::MAX / 3,
                        _ => 1,
                    }
                } else {
                    rng.below(7) as $T
                }
            }
            pub fn c01(rng: &mut Rng, rep: &mut Report, rounds: usize) {
                for _ in 0..rounds {
                    if rep.bad() {
                        return;
                    }
                    let size = if rng.chance(1, 3) { rng.range(1, 6) } else { rng.range(7, 200) } as usize;
                    let h = rng.range(1, 5) as usize;
                    let seed = if rng.chance(1, 8) { u64::MAX - rng.below(3) } else { rng.next() };
                    let ng = rng.range(1, 6) as usize;
                    let gs = words(rng, ng, 3);
                    let ex = exact(size, h, seed, &gs);
                    let c = mk(size, h, seed, 0);
                    let mut tot = vec![0u128; gs.len()];
                    let big = rng.chance(1, 2);
                    let steps = rng.range(1, 40) as usize;
                    let mut trace = vec![];
                    let mut max_before: Vec<$T> = gs.iter().map(|g| c.max_count(&g[..])).collect();
                    let what = |trace: &Vec<(usize, $T)>| {
                        format!("{} cells={size} hashes={h} seed={seed} ngrams={gs:?} increments (ngram index, by)={trace:?}", stringify!($A))
                    };
                    for _ in 0..steps {
                        let i = rng.below(gs.len() as u64) as usize;
                        let by: $T = amount(rng, big);
                        let how = rng.below(3);
                        let nz0 = c.nonzero();
                        let r = bump(&c, &gs[i], by, how);
                        tot[i] += by as u128;
                        trace.push((i, by));
                        let want = std::cmp::min(tot[i], <$T>::MAX as u128);
                        if (r as u128) < want || (ex[i] && r as u128 != want) {
                            return rep.fail(format!("increment returned {r}, total {want} (exact cell: {}): {}", ex[i], what(&trace)));
                        }
                        let all: u128 = tot.iter().sum::<u128>() * h as u128;
                        if r as u128 > all {
                            return rep.fail(format!("increment returned {r}, more than everything added ({all}): {}", what(&trace)));
                        }
                        if c.nonzero() > nz0 + h as u64 {
                            return rep.fail(format!("one increment touched more than {h} cells: {}", what(&trace)));
                        }
                        // no cell ever goes down or wraps; cells of disjoint ngrams stay
                        for j in 0..gs.len() {
                            let v = c.increment(&gs[j][..], 0);
                            let want = std::cmp::min(tot[j], <$T>::MAX as u128);
                            if (v as u128) < want || (ex[j] && v as u128 != want) {
                                return rep.fail(format!("count of ngram {j} is {v}, total {want} (exact cell: {}): {}", ex[j], what(&trace)));
                            }
                            let m = c.max_count(&gs[j][..]);
                            if m < max_before[j] || m < v {
                                return rep.fail(format!("maximum over the cells of ngram {j} went from {} to {m} (minimum {v}): {}", max_before[j], what(&trace)));
                            }
                            if j != i && m != max_before[j]
                                && nz(size, h, seed, &gs, &[i, j]) == nz(size, h, seed, &gs, &[i]) + nz(size, h, seed, &gs, &[j])
                            {
                                return rep.fail(format!("incrementing ngram {i} changed a cell of ngram {j}, which shares none: {}", what(&trace)));
                            }
                            max_before[j] = m;
                        }
                    }
                    let every: Vec<usize> = (0..gs.len()).filter(|&i| tot[i] > 0).collect();
                    if c.nonzero() != nz(size, h, seed, &gs, &every) {
                        return rep.fail(format!("{} cells are non-zero, the ngrams hash to {}: {}", c.nonzero(), nz(size, h, seed, &gs, &every), what(&trace)));
                    }
                    rep.eval(&what(&trace), gs.len() > 1 && trace.len() > 2);
                }
            }
            pub fn c02(rng: &mut Rng, rep: &mut Report, rounds: usize) {
                for _ in 0..rounds {
                    if rep.bad() {
                        return;
                    }
                    let size = if rng.chance(1, 3) { rng.range(1, 6) } else { rng.range(7, 200) } as usize;
                    let h = rng.range(1, 5) as usize;
                    let seed = rng.next();
                    let ng = rng.range(1, 6) as usize;
                    let gs = words(rng, ng, 3);
                    let ex = exact(size, h, seed, &gs);
                    let c = mk(size, h, seed, <$T>::MAX);
                    let mut tot = vec![0u128; gs.len()];
                    let big = rng.chance(1, 2);
                    let steps = rng.range(1, 40) as usize;
                    let mut trace = vec![];
                    let what = |trace: &Vec<(usize, $T)>| {
                        format!("{} cells={size} hashes={h} seed={seed} ngrams={gs:?} decrements (ngram index, by)={trace:?}", stringify!($A))
                    };
                    let mut before: Vec<$T> = gs.iter().map(|g| c.max_count(&g[..])).collect();
                    for _ in 0..steps {
                        let i = rng.below(gs.len() as u64) as usize;
                        let by: $T = amount(rng, big);
                        let nz0 = c.nonzero();
                        let r = c.decrement(&gs[i][..], by);
                        tot[i] += by as u128;
                        trace.push((i, by));
                        let rest = |t: u128| (<$T>::MAX as u128).saturating_sub(t);
                        if r as u128 > rest(tot[i]) || (ex[i] && r as u128 != rest(tot[i])) {
                            return rep.fail(format!("decrement returned {r}, remaining is {} (exact cell: {}): {}", rest(tot[i]), ex[i], what(&trace)));
                        }
                        let all: u128 = tot.iter().sum::<u128>() * h as u128;
                        if (r as u128) < rest(all) {
                            return rep.fail(format!("decrement returned {r}, less than everything subtracted leaves ({}): {}", rest(all), what(&trace)));
                        }
                        if c.nonzero() + (h as u64) < nz0 || c.nonzero() > nz0 {
                            return rep.fail(format!("one decrement changed more than {h} cells, or filled one: {}", what(&trace)));
                        }
                        for j in 0..gs.len() {
                            let m = c.max_count(&gs[j][..]);
                            if m as u128 > rest(tot[j]) || (ex[j] && m as u128 != rest(tot[j])) || m > before[j] {
                                return rep.fail(format!("max_count of ngram {j} is {m} (before {}), remaining is {} (exact cell: {}): {}", before[j], rest(tot[j]), ex[j], what(&trace)));
                            }
                            let z = c.decrement(&gs[j][..], 0);
                            if z < m || z as u128 > rest(tot[j]) {
                                return rep.fail(format!("decrement by 0 returned {z}, max_count {m}: {}", what(&trace)));
                            }
                            if j != i && m != before[j]
                                && nz(size, h, seed, &gs, &[i, j]) == nz(size, h, seed, &gs, &[i]) + nz(size, h, seed, &gs, &[j])
                            {
                                return rep.fail(format!("decrementing ngram {i} changed a cell of ngram {j}, which shares none: {}", what(&trace)));
                            }
                            before[j] = m;
                        }
                    }
                    rep.eval(&what(&trace), gs.len() > 1 && trace.len() > 2);
                }
            }
            pub fn c03(rng: &mut Rng, rep: &mut Report, rounds: usize) {
                for _ in 0..rounds {
                    if rep.bad() {
                        return;
                    }
                    let size = *rng.pick(&[1usize, 2, 3, 7, 64]);
                    let h = rng.range(1, 4) as usize;
                    let seed = rng.next();
                    let gs = words(rng, 4, 2);
                    let threads = rng.range(2, 8) as usize;
                    let dec = rng.chance(1, 2);
                    let init: $T = if dec { <$T>::MAX } else { 0 };
                    // stay clear of saturation: h * threads * per * by <= MAX
                    let budget = (<$T>::MAX as u128 / (h as u128 * threads as u128)).min(3000) as u64;
                    let per = budget.min(if std::mem::size_of::<$T>() == 1 { budget } else { 1500 });
                    let c = Arc::new(mk(size, h, seed, init));
                    let seq = mk(size, h, seed, init);
                    let mut plans: Vec<Vec<usize>> = vec![];
                    for _ in 0..threads {
                        let mut p = vec![];
                        for _ in 0..per {
                            p.push(rng.below(gs.len() as u64) as usize);
                        }
                        for &i in &p {
                            if dec { seq.decrement(&gs[i][..], 1); } else { seq.increment(&gs[i][..], 1); }
                        }
                        plans.push(p);
                    }
                    let bar = Arc::new(Barrier::new(threads));
                    let gsa = Arc::new(gs.clone());
                    let mut hs = vec![];
                    for p in plans.clone() {
                        let (c, bar, gs) = (c.clone(), bar.clone(), gsa.clone());
                        hs.push(std::thread::spawn(move || {
                            bar.wait();
                            for i in p {
                                if dec { c.decrement(&gs[i][..], 1); } else { c.increment(&gs[i][..], 1); }
                            }
                        }));
                    }
                    for t in hs { t.join().unwrap(); }
                    let what = format!("{} cells={size} hashes={h} seed={seed} ngrams={gs:?} {} threads, {} {} each", stringify!($A), threads, per, if dec {"decrements"} else {"increments"});
                    for (i, g) in gs.iter().enumerate() {
                        let (a, b) = (c.max_count(&g[..]), seq.max_count(&g[..]));
                        let (x, y) = if dec { (c.decrement(&g[..], 0), seq.decrement(&g[..], 0)) } else { (c.increment(&g[..], 0), seq.increment(&g[..], 0)) };
                        if a != b || x != y {
                            return rep.fail(format!("after concurrent updates ngram {i} has maximum {a} and count {x}, one after another {b} and {y}: {what}"));
                        }
                    }
                    rep.eval(&what, true);
                }
            }
            pub fn c03_same(rng: &mut Rng, rep: &mut Report, rounds: usize) {
                // two or three threads increment the same ngram once: the larger return value is the total
                for _ in 0..rounds {
                    let t = rng.range(2, 3) as usize;
                    let c = Arc::new(mk(1 << 10, 5, rng.next(), 0));
                    let go = Arc::new(AtomicUsize::new(0));
                    let hs: Vec<_> = (0..t).map(|_| {
                        let (c, go) = (c.clone(), go.clone());
                        std::thread::spawn(move || {
                            go.fetch_add(1, Ordering::SeqCst);
                            while go.load(Ordering::SeqCst) < t { std::hint::spin_loop(); }
                            c.increment(&["a", "b"][..], 1)
                        })
                    }).collect();
                    let best = hs.into_iter().map(|h| h.join().unwrap()).max().unwrap();
                    rep.eval(&format!("{t} racing increments of one ngram, {}", stringify!($A)), true);
                    if (best as usize) < t {
                        return rep.fail(format!("{t} racing increments of one ngram (5 hashes, {}): the largest count returned is {best}", stringify!($A)));
                    }
                }
            }
            pub fn c12(rng: &mut Rng, rep: &mut Report, rounds: usize) {
                for _ in 0..rounds {
                    if rep.bad() { return; }
                    let size = if rng.chance(1, 3) { rng.range(1, 8) } else { rng.range(9, 3000) } as usize;
                    let h = rng.range(1, 6) as usize;
                    let seed = rng.next();
                    let ng = rng.range(0, 12) as usize;
                    let gs = words(rng, ng, 3);
                    let c = mk(size, h, seed, 0);
                    let mut order: Vec<usize> = (0..gs.len()).flat_map(|i| vec![i; 1 + (i % 3)]).collect();
                    if gs.len() > 0 && rng.chance(1, 6) { order.extend(vec![0; 300]); }
                    for i in (1..order.len()).rev() { let j = rng.below(i as u64 + 1) as usize; order.swap(i, j); }
                    let by: $T = if rng.chance(1, 4) { <$T>::MAX } else { 1 };
                    for &i in &order { c.increment(&gs[i][..], by); }
                    let n = c.nonzero();
                    let what = format!("{} cells={size} hashes={h} seed={seed} ngrams={gs:?} order={order:?} by={by}", stringify!($A));
                    let all: Vec<usize> = (0..gs.len()).collect();
                    if n != nz(size, h, seed, &gs, &all) { return rep.fail(format!("nonzero {n} depends on order or repetition: {what}")); }
                    if (n == 0) != gs.is_empty() || n > size as u64 || n > (h * gs.len()) as u64 {
                        return rep.fail(format!("nonzero is {n}: {what}"));
                    }
                    // independent recount: which ngrams see a zero cell?  every touched ngram must see none
                    for g in &gs { if c.increment(&g[..], 0) == 0 { return rep.fail(format!("an incremented ngram has a zero cell: {what}")); } }
                    // adding cells one ngram at a time never lowers the number, and by at most h
                    let d = mk(size, h, seed, 0);
                    let mut last = 0;
                    for g in &gs {
                        let seen = d.increment(&g[..], 0) > 0;
                        d.increment(&g[..], 1);
                        let now = d.nonzero();
                        if now < last || now > last + h as u64 || (seen && now != last) || (!seen && now == last) {
                            return rep.fail(format!("nonzero went from {last} to {now} (cells already set: {seen}): {what}"));
                        }
                        last = now;
                    }
                    rep.eval(&what, gs.len() > 1);
                }
                // with one hash function and a large table the number is exact, unless cells collide
                let mut exact_seen = false;
                let mut last = String::new();
                for _ in 0..20 {
                    let seed = rng.next();
                    let gs = words(rng, 30, 3);
                    let all: Vec<usize> = (0..gs.len()).collect();
                    let n = nz(1 << 20, 1, seed, &gs, &all);
                    last = format!("{n} non-zero cells for 30 distinct ngrams, one hash, 2^20 cells, seed {seed}");
                    if n == 30 { exact_seen = true; }
                }
                rep.eval("one hash function, 2^20 cells", true);
                if !exact_seen { rep.fail(format!("never exact in 20 tries: {last}")); }
                // unseeded counters too
                let c = NgramCounter::<$A>::new(1 << 20, 3, None, 0).unwrap();
                if c.nonzero() != 0 { rep.fail("a fresh counter has non-zero cells".into()); }
                c.increment(&["a"][..], 1);
                if c.nonzero() == 0 || c.nonzero() > 3 { rep.fail(format!("{} cells touched by one ngram with 3 hashes", c.nonzero())); }
                let m = NgramCounter::<$A>::new(17, 3, None, <$T>::MAX).unwrap();
                if m.nonzero() != 17 { rep.fail(format!("a table of 17 cells filled with the maximum has {} non-zero cells", m.nonzero())); }
            }
            pub fn c04(rng: &mut Rng, rep: &mut Report, rounds: usize) {
                for r in 0..rounds {
                    if rep.bad() { return; }
                    let seed = match r % 6 { 0 => 0, 1 => u64::MAX, 2 => u64::MAX - rng.below(5), 3 => 1 + rng.below(50), 4 => 1 << rng.below(64), _ => rng.next() };
                    let size = rng.range(1, 300) as usize;
                    let h = rng.range(1, 8) as usize;
                    let gs = words(rng, 12, 3);
                    let (a, b) = match (NgramCounter::<$A>::new(size, h, Some(seed), 0), NgramCounter::<$A>::new(size, h, Some(seed), 0)) {
                        (Ok(a), Ok(b)) => (a, b),
                        _ => return rep.fail(format!("cannot create a counter: size={size} hashes={h} seed={seed}")),
                    };
                    let what = format!("{} cells={size} hashes={h} seed={seed} ngrams={gs:?}", stringify!($A));
                    for g in &gs {
                        if a.increment(&g[..], 1) != b.increment(&g[..], 1) || a.nonzero() != b.nonzero() || a.max_count(&g[..]) != b.max_count(&g[..]) {
                            return rep.fail(format!("two counters with the same seed disagree on {g:?}: {what}"));
                        }
                    }
                    for g in &gs {
                        if a.increment(&g[..], 0) != b.increment(&g[..], 0) || a.max_count(&g[..]) != b.max_count(&g[..]) {
                            return rep.fail(format!("two counters with the same seed disagree on {g:?}: {what}"));
                        }
                    }
                    // keys pairwise different: some ngram must reach h distinct cells of a large table
                    let best = gs.iter().map(|g| { let c = mk(1 << 14, h, seed, 0); c.increment(&g[..], 1); c.nonzero() }).max().unwrap();
                    if best != h as u64 {
                        return rep.fail(format!("{h} hash functions reach at most {best} cells of 2^14 for each of 12 ngrams, so some share a key: {what}"));
                    }
                    rep.eval(&what, true);
                }
            }
            pub fn dump(seed: u64) -> String {
                let mut rng = Rng::new(7);
                let gs = words(&mut rng, 40, 3);
                let c = mk(50, 3, seed, 0);
                let mut s = vec![];
                for g in &gs { s.push(format!("{}", c.increment(&g[..], 1))); }
                for g in &gs { s.push(format!("{}", c.max_count(&g[..]))); }
                s.push(format!("{}", c.nonzero()));
                s.join(",")
            }
        }
    };
}
counter_checks!(k8, AtomicU8, u8);
counter_checks!(k32, AtomicU32, u32);
counter_checks!(k64, AtomicU64, u64);

fn c04_processes(rng: &mut Rng, rep: &mut Report, n: usize) {
    let exe = std::env::current_exe().unwrap();
    for r in 0..n {
        let seed = match r { 0 => 0, 1 => u64::MAX, 2 => 42, 3 => u64::MAX - 2, _ => rng.next() };
        let run = || {
            let o = std::process::Command::new(&exe).args(["dump", &seed.to_string(), "quick"]).output().unwrap();
            (o.status.success(), String::from_utf8_lossy(&o.stdout).to_string())
        };
        let (a, b) = (run(), run());
        rep.eval(&format!("two processes, seed {seed}"), true);
        if !a.0 || !b.0 || a.1 != b.1 {
            return rep.fail(format!("two processes with seed {seed} count differently (50 cells, 3 hashes, 40 ngrams):\n{}\n{}", a.1, b.1));
        }
    }
}

// ---------------------------------------------------------------------------------- top-k
macro_rules! topk_checks {
    ($mod:ident, $A:ty, $T:ty) => {
        mod $mod {
            use super::*;
            fn model(ins: &[(u64, $T)], k: usize) -> Vec<(u64, $T)> {
                let mut best: BTreeMap<u64, $T> = BTreeMap::new();
                for &(g, c) in ins {
                    let e = best.entry(g).or_insert(c);
                    if c > *e { *e = c; }
                }
                let mut v: Vec<($T, u64)> = best.into_iter().map(|(g, c)| (c, g)).collect();
                v.sort();
                v.reverse();
                v.truncate(k);
                v.into_iter().map(|(c, g)| (g, c)).collect()
            }
            fn drain(t: &mut TopKNgrams<u64, $A>) -> Vec<(u64, $T)> {
                t.drain().into_iter().map(|(g, c)| (g[0], c)).collect()
            }
            pub fn one(rep: &mut Report, k: usize, ins: &[(u64, $T)], again: &[(u64, $T)], c06: bool) {
                let mut t: TopKNgrams<u64, $A> = TopKNgrams::new(k);
                let h0 = t.min_count();
                let mut u: TopKNgrams<u64, $A> = TopKNgrams::new(k);
                let what = || format!("{} k={k} insertions (ngram, count)={ins:?}{}", stringify!($A), if again.is_empty() { String::new() } else { format!(" then drain and {again:?}") });
                for (round, seq) in [ins, again].into_iter().enumerate() {
                    if round == 1 && seq.is_empty() { break; }
                    let mut last: $T = 1;
                    for (n, &(g, c)) in seq.iter().enumerate() {
                        t.insert(vec![g], c);
                        if c06 {
                            let m = h0.load(Ordering::SeqCst);
                            let best = model(&seq[..=n], usize::MAX);
                            if m != t.min_count().load(Ordering::SeqCst) {
                                return rep.fail(format!("two handles of one structure disagree: {}", what()));
                            }
                            if m < last { return rep.fail(format!("published minimum fell from {last} to {m} after insertion {n}: {}", what())); }
                            let cap = if best.len() < k { 1 } else { best[k - 1].1 };
                            if m > cap || m < 1 || (best.len() < k && m != 1) {
                                return rep.fail(format!("published minimum is {m} after insertion {n}, allowed at most {cap}: {}", what()));
                            }
                            last = m;
                            if c >= u.min_count().load(Ordering::SeqCst) { u.insert(vec![g], c); }
                        }
                    }
                    let want = model(seq, k);
                    let got = drain(&mut t);
                    if got != want { return rep.fail(format!("drained {got:?}, expected {want:?} (round {round}): {}", what())); }
                    if c06 {
                        let f = drain(&mut u);
                        if f != want { return rep.fail(format!("with insertions below the published minimum ignored, drained {f:?}, expected {want:?}: {}", what())); }
                        if h0.load(Ordering::SeqCst) != 1 { return rep.fail(format!("published minimum is {} after draining: {}", h0.load(Ordering::SeqCst), what())); }
                    }
                    if !drain(&mut t).is_empty() { return rep.fail(format!("a second drain is not empty: {}", what())); }
                }
                rep.eval(&what(), ins.len() > k);
            }
            pub fn exhaustive(rep: &mut Report, maxlen: usize, ids: u64, counts: u64, ks: &[usize], c06: bool) {
                let base = (ids * counts) as usize;
                for len in 0..=maxlen {
                    for code in 0..base.pow(len as u32) {
                        let mut x = code;
                        let mut ins = vec![];
                        for _ in 0..len {
                            let y = (x % base) as u64;
                            x /= base;
                            ins.push((y / counts, (1 + y % counts) as $T));
                        }
                        for &k in ks {
                            one(rep, k, &ins, if code % 7 == 0 { &ins[..len / 2 + len % 2] } else { &[] }, c06);
                            if rep.bad() { return; }
                        }
                    }
                }
            }
            pub fn random(rng: &mut Rng, rep: &mut Report, rounds: usize, c06: bool) {
                for _ in 0..rounds {
                    if rep.bad() { return; }
                    let k = if rng.chance(1, 20) { usize::MAX - rng.below(2) as usize } else { rng.range(1, 12) as usize };
                    let ids = rng.range(1, 30);
                    let top = if rng.chance(1, 3) { 4 } else { 200 };
                    let gen = |rng: &mut Rng, n: u64| -> Vec<(u64, $T)> {
                        (0..n).map(|_| (rng.below(ids), if rng.chance(1, 15) { <$T>::MAX - rng.below(2) as $T } else { (1 + rng.below(top)) as $T })).collect()
                    };
                    let n = rng.range(0, 80);
                    let a = gen(rng, n);
                    let m = rng.range(0, 30);
                    let b = if rng.chance(1, 2) { gen(rng, m) } else { vec![] };
                    one(rep, k, &a, &b, c06);
                    // order independence
                    if !c06 {
                        let mut p = a.clone();
                        for i in (1..p.len()).rev() { let j = rng.below(i as u64 + 1) as usize; p.swap(i, j); }
                        let mut t: TopKNgrams<u64, $A> = TopKNgrams::new(k);
                        for &(g, c) in &a { t.insert(vec![g], c); }
                        let mut u: TopKNgrams<u64, $A> = TopKNgrams::new(k);
                        for &(g, c) in &p { u.insert(vec![g], c); }
                        if drain(&mut t) != drain(&mut u) { return rep.fail(format!("insertion order matters: k={k} {a:?} / {p:?}")); }
                    }
                }
            }
        }
    };
}
topk_checks!(t8, AtomicU8, u8);
topk_checks!(t32, AtomicU32, u32);
topk_checks!(t64, AtomicU64, u64);

fn topk_multi(rng: &mut Rng, rep: &mut Report, rounds: usize) {
    // ngrams of several tokens, compared lexicographically
    for _ in 0..rounds {
        if rep.bad() { return; }
        let k = rng.range(1, 6) as usize;
        let mut t: TopKNgrams<String, AtomicU32> = TopKNgrams::new(k);
        let gs = words(rng, 10, 3);
        let mut best: HashMap<Vec<String>, u32> = HashMap::new();
        let mut seq = vec![];
        for _ in 0..rng.range(0, 40) {
            let g = rng.pick(&gs).clone();
            let c = rng.range(1, 5) as u32;
            t.insert(g.clone(), c);
            seq.push((g.clone(), c));
            let e = best.entry(g).or_insert(c);
            *e = (*e).max(c);
        }
        let mut want: Vec<(u32, Vec<String>)> = best.into_iter().map(|(g, c)| (c, g)).collect();
        want.sort();
        want.reverse();
        want.truncate(k);
        let got: Vec<(u32, Vec<String>)> = t.drain().into_iter().map(|(g, c)| (c, g.to_vec())).collect();
        rep.eval(&format!("k={k} {seq:?}"), seq.len() > k);
        if got != want { rep.fail(format!("drained {got:?}, expected {want:?}: k={k} insertions {seq:?}")); }
    }
}

// ---------------------------------------------------------------------------------- ngrams
struct Stutter { items: Vec<Option<u32>>, at: usize }
impl Iterator for Stutter {
    type Item = u32;
    fn next(&mut self) -> Option<u32> {
        let r = self.items.get(self.at).cloned().flatten();
        self.at += 1;
        r
    }
}

fn c07(rng: &mut Rng, rep: &mut Report, tier: &str) {
    let maxlen = if tier == "thorough" { 40 } else { 24 };
    for n in 1..=12usize {
        for len in 0..=maxlen {
            for rept in [0u32, 1, 2, 3] {
                let toks: Vec<u32> = (0..len as u32).map(|i| if rept == 0 { i } else { i % rept }).collect();
                let want: Vec<Vec<u32>> = if len >= n { toks.windows(n).map(|w| w.to_vec()).collect() } else { vec![] };
                let mut it = toks.clone().into_iter().ngrams(n);
                let mut got = vec![];
                while let Some(g) = it.next() {
                    got.push(g);
                    if got.len() > len + 2 { break; }
                }
                for _ in 0..3 {
                    if let Some(g) = it.next() { got.push(g); }
                }
                rep.eval(&format!("n={n} tokens={toks:?}"), len > n);
                if got != want { return rep.fail(format!("n={n} tokens={toks:?}: got {got:?}, expected {want:?}")); }
            }
        }
    }
    // texts, through the tokenizer
    for _ in 0..(if tier == "thorough" { 20000 } else { 3000 }) {
        let text = random_text(rng);
        let n = rng.range(1, 5) as usize;
        let toks: Vec<String> = text.split_word_bounds().filter(|w| w.chars().any(|c| !c.is_whitespace())).map(|s| s.to_string()).collect();
        let want: Vec<Vec<String>> = if toks.len() >= n { toks.windows(n).map(|w| w.to_vec()).collect() } else { vec![] };
        let got: Vec<Vec<String>> = match ngrams(&text, n, &None) { Ok(i) => i.take(want.len() + 3).collect(), Err(e) => return rep.fail(format!("ngrams({text:?}, {n}) failed: {e}")) };
        rep.eval(&format!("ngrams({text:?}, {n})"), want.len() > 1);
        if got != want { return rep.fail(format!("ngrams({text:?}, {n}) = {got:?}, expected {want:?}")); }
    }
    // a source that ends keeps the iterator ended as long as it yields nothing
    for n in 1..5usize {
        for len in 0..6usize {
            let items: Vec<Option<u32>> = (0..len as u32).map(Some).collect();
            let mut it = Stutter { items, at: 0 }.ngrams(n);
            let mut c = 0;
            while it.next().is_some() { c += 1; if c > 20 { break; } }
            for _ in 0..5 { if it.next().is_some() { return rep.fail(format!("n={n}, {len} tokens: yields again after the end")); } }
            if c != (len + 1).saturating_sub(n) { return rep.fail(format!("n={n}, {len} tokens: {c} ngrams")); }
            rep.eval(&format!("custom source n={n} len={len}"), len > n);
        }
    }
}

fn random_text(rng: &mut Rng) -> String {
    const PIECES: &[&str] = &[
        "a", "b", "foo", "Bar", "don't", "3.14", "1,000", "e-mail", " ", "  ", "\t", "\n", "\r\n", "\u{a0}", "\u{3000}", "\u{2003}", "\u{85}",
        "\u{200b}", "\u{feff}", ".", ",", "!", "?!", "--", "_", "@", "é", "e\u{301}", "日本語", "かな", "カタ", "한국", "🇫🇷", "👩\u{200d}👩\u{200d}👧", "\u{301}",
        "\"", "'", "ß", "\u{0}", "\u{1}", "\u{b}", "\u{c}", "\u{1c}", "\u{2028}", "\u{180e}", "x\u{200b}y", "http://a.b/c", "A1b2", "…", "\u{ad}", "ไทย", "\u{202f}",
    ];
    let n = rng.below(12);
    (0..n).map(|_| *rng.pick(PIECES)).collect::<Vec<_>>().concat()
}

fn c08(rng: &mut Rng, rep: &mut Report, tier: &str) {
    let check = |rep: &mut Report, text: &str| {
        let want: Vec<&str> = text.split_word_bounds().filter(|w| !w.chars().all(|c| c.is_whitespace())).collect();
        let got: Vec<&str> = tokenize(text).collect();
        rep.eval(&format!("{text:?}"), want.len() > 1);
        if got != want { rep.fail(format!("tokenize({text:?}) = {got:?}, expected {want:?}")); return; }
        let kept: String = text.chars().filter(|c| !c.is_whitespace()).collect();
        let out: String = got.concat().chars().filter(|c| !c.is_whitespace()).collect();
        if kept != out { rep.fail(format!("tokenize({text:?}) drops or changes non-blank characters: {got:?}")); }
    };
    for c in (0u32..=0x10FFFF).filter_map(char::from_u32) {
        let interesting = c.is_whitespace() || c.is_control() || (c as u32) < 0x3100;
        if interesting || c as u32 % 257 == 0 {
            for t in [format!("{c}"), format!("a{c}b"), format!("{c}{c}"), format!(" {c} "), format!("\n{c}a")] {
                check(rep, &t);
                if rep.bad() { return; }
            }
        }
    }
    for _ in 0..(if tier == "thorough" { 200000 } else { 20000 }) {
        let t = random_text(rng);
        check(rep, &t);
        if rep.bad() { return; }
    }
    let long: String = (0..5000).map(|i| format!("w{} ", i)).collect();
    check(rep, &long);
}

// ---------------------------------------------------------------------------------- gzip reader
fn gz(parts: &[&[u8]]) -> Vec<u8> {
    let mut out = vec![];
    for p in parts {
        let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::fast());
        e.write_all(p).unwrap();
        out.extend(e.finish().unwrap());
    }
    out
}
fn split_lines(b: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut cur = vec![];
    for &x in b {
        cur.push(x);
        if x == b'\n' { v.push(std::mem::take(&mut cur)); }
    }
    if !cur.is_empty() { v.push(cur); }
    v
}
fn c09(rng: &mut Rng, rep: &mut Report, tier: &str, dir: &str) {
    let path = format!("{dir}/x.gz");
    for _round in 0..(if tier == "thorough" { 6000 } else { 900 }) {
        if rep.bad() { return; }
        let nlines = rng.below(12);
        let mut content: Vec<u8> = vec![];
        let mut bad_utf8 = false;
        for _ in 0..nlines {
            match rng.below(12) {
                0 => {}
                1 => content.extend(std::iter::repeat(b'x').take(rng.range(2040, 2060) as usize)),
                2 => content.extend(std::iter::repeat(b'y').take(rng.range(8180, 8200) as usize)),
                3 => content.extend("é日🇫🇷".as_bytes()),
                4 => content.extend(b"crlf\r"),
                5 => { if rng.chance(1, 6) { content.extend(b"bad \xff\xfe"); bad_utf8 = true; } }
                6 => content.extend(std::iter::repeat(b'z').take(rng.range(20000, 40000) as usize)),
                7 => content.push(0),
                _ => content.extend(format!("line{}", rng.below(1000)).bytes()),
            }
            content.push(b'\n');
        }
        if rng.chance(1, 2) && !content.is_empty() { content.pop(); }
        // split into members at random points
        let mut cuts: Vec<usize> = (0..rng.below(4)).map(|_| rng.below(content.len() as u64 + 1) as usize).collect();
        cuts.sort();
        let mut parts: Vec<&[u8]> = vec![];
        let mut prev = 0;
        for c in cuts { parts.push(&content[prev..c]); prev = c; }
        parts.push(&content[prev..]);
        let mut data = gz(&parts);
        let truncated = rng.chance(1, 5) && data.len() > 4;
        if truncated { let n = rng.range(1, data.len() as u64 - 1) as usize; data.truncate(n); }
        std::fs::write(&path, &data).unwrap();
        let want = split_lines(&content);
        let what = format!("{} lines, {} bytes, members {:?}, {}", want.len(), content.len(), parts.iter().map(|p| p.len()).collect::<Vec<_>>(),
            if truncated { format!("archive truncated to {} bytes", data.len()) } else { "complete".into() });
        let hold = rng.below(3); // 0 none, 1 all, 2 some
        let reader = match wimbd::io::GzBufReader::open(&path) { Ok(r) => r, Err(e) => return rep.fail(format!("open failed: {e}: {what}")) };
        let mut reader = reader;
        let mut held: Vec<(usize, Rc<String>)> = vec![];
        let mut at = 0usize;
        let mut errors = 0;
        let mut n = 0;
        loop {
            n += 1;
            if n > want.len() + 20 { break; }
            match reader.next() {
                None => break,
                Some(Ok(line)) => {
                    if errors == 0 {
                        // a truncated archive may end inside a member boundary: then it is a shorter file
                        let ok = at < want.len() && (line.as_bytes() == &want[at][..]
                            || (truncated && want[at].starts_with(line.as_bytes()) && !line.is_empty()));
                        if !ok { return rep.fail(format!("line {at} read as {:?}…, expected {:?}…: {what}", line.chars().take(60).collect::<String>(), want.get(at).map(|w| String::from_utf8_lossy(w).chars().take(60).collect::<String>()))); }
                    } else if !content.windows(line.len().max(1)).any(|w| w == line.as_bytes()) {
                        return rep.fail(format!("after an error the reader invented {:?}: {what}", line.chars().take(60).collect::<String>()));
                    }
                    if hold == 1 || (hold == 2 && rng.chance(1, 2)) { held.push((at, line)); }
                    at += 1;
                }
                Some(Err(_)) => {
                    if !bad_utf8 && !truncated { return rep.fail(format!("error on good data: {what}")); }
                    if errors == 0 && !truncated {
                        if at >= want.len() || std::str::from_utf8(&want[at]).is_ok() { return rep.fail(format!("line {at} is fine but reading failed: {what}")); }
                    }
                    errors += 1;
                    at += 1;
                    if truncated && errors > 3 { break; }
                }
            }
            for (i, l) in &held {
                if errors == 0 && !truncated && l.as_bytes() != &want[*i][..] { return rep.fail(format!("line {i}, still held by the caller, changed to {:?}: {what}", l.chars().take(60).collect::<String>())); }
            }
        }
        if !truncated && errors == 0 {
            if bad_utf8 && want.iter().any(|w| std::str::from_utf8(w).is_err()) { return rep.fail(format!("invalid UTF-8 read without an error: {what}")); }
            if at != want.len() { return rep.fail(format!("{at} lines read of {}: {what}", want.len())); }
            for _ in 0..3 { if reader.next().is_some() { return rep.fail(format!("something was read after the end: {what}")); } }
        }
        if truncated && errors == 0 {
            // only acceptable when the cut is exactly between two members
            let mut ends = vec![0usize];
            for p in &parts { ends.push(ends.last().unwrap() + gz(&[p]).len()); }
            if !ends.contains(&data.len()) { return rep.fail(format!("a truncated archive was read to the end without an error: {what}")); }
        }
        rep.eval(&what, want.len() > 1);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (check, seed, tier) = (a[1].as_str(), a[2].parse::<u64>().unwrap_or(1), a[3].as_str());
    if check == "dump" {
        println!("{};{};{}", k8::dump(seed), k32::dump(seed), k64::dump(seed));
        return;
    }
    let deep = if tier == "thorough" { 60 } else { 5 };
    let mut rng = Rng::new(seed);
    let mut rep = Report::new();
    let (rng, r) = (&mut rng, &mut rep);
    match check {
        "C01" => { k8::c01(rng, r, 400 * deep); k32::c01(rng, r, 400 * deep); k64::c01(rng, r, 300 * deep); }
        "C02" => { k8::c02(rng, r, 400 * deep); k32::c02(rng, r, 400 * deep); k64::c02(rng, r, 300 * deep); }
        "C03" => {
            k8::c03(rng, r, 100 * deep); k32::c03(rng, r, 60 * deep); k64::c03(rng, r, 30 * deep);
        }
        "C10race" => k32::c03_same(rng, r, 5000 * deep),
        "C04" => { k8::c04(rng, r, 60 * deep); k32::c04(rng, r, 60 * deep); k64::c04(rng, r, 60 * deep); c04_processes(rng, r, 6 * deep); }
        "C05" | "C06" => {
            let c06 = check == "C06";
            let l = if tier == "thorough" { 5 } else { 4 };
            t32::exhaustive(r, l, 3, 3, &[1, 2, 3], c06);
            if !r.bad() { t8::exhaustive(r, l, 4, 2, &[1, 2, 3, 4], c06); }
            t32::random(rng, r, 4000 * deep, c06);
            t8::random(rng, r, 2000 * deep, c06);
            t64::random(rng, r, 2000 * deep, c06);
            if !c06 { topk_multi(rng, r, 2000 * deep); }
        }
        "C07" => c07(rng, r, tier),
        "C08" => c08(rng, r, tier),
        "C09" => c09(rng, r, tier, &a[4]),
        "C12" => { k8::c12(rng, r, 500 * deep); k32::c12(rng, r, 300 * deep); k64::c12(rng, r, 200 * deep); }
        _ => { eprintln!("unknown check"); std::process::exit(2); }
    }
    let s: Vec<String> = rep.samples.iter().map(|s| esc(s)).collect();
    println!("{{\"evaluations\":{},\"distinct\":{},\"samples\":[{}],\"violation\":{}}}", rep.evaluations, rep.distinct.len(), s.join(","),
        rep.violation.as_ref().map(|v| esc(v)).unwrap_or("null".into()));
}
