"""Bounded layer for the Python part: the real scripts and modules of /repo/wimbd, with stand-ins (pystubs/) for
packages that are not installed, against independent oracles."""
import gzip, hashlib, json, os, random, sys, time
from base import *
import base

STUBS = os.path.join(VERIF, "pystubs")
W = os.path.join(REPO, "wimbd")


def env_py(extra=None):
    e = {"PYTHONPATH": STUBS + os.pathsep + base.REPO, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "PYTHONWARNINGS": "ignore"}
    e.update(extra or {})
    return e


def script(rel, args, cwd, stdin=None, extra=None, timeout=60):
    p = os.path.join(base.REPO, "wimbd", rel)
    if not os.path.exists(p):
        raise Undecided("%s is not there" % rel)
    rc, out, err = run([sys.executable, p] + [str(a) for a in args], cwd=cwd, timeout=timeout, extra=env_py(extra),
                       stdin=None if stdin is None else stdin.encode("utf8"))
    if rc not in (0, None) and ("ModuleNotFoundError" in err or "ImportError" in err or "pystubs" in err.split("Traceback")[-1].splitlines()[-2:][0] if err.strip() else False):
        raise Undecided("%s needs something that is not here: %s" % (rel, err.strip()[-200:]))
    return rc, out, err


def rounds(fn, salt, n, quick_s=12, deep_s=240, jobs=None):
    """fn(seed) for n seeds, then more while the time lasts"""
    rng = random.Random(SEED * 7919 + salt)
    t0 = time.time()
    k = 0
    while k == 0 or time.time() - t0 < (deep_s if DEEP else quick_s):
        parallel(fn, [rng.random() for _ in range(n)], jobs)
        k += 1
        if k > 400:
            break


def gz(path, text):
    with open(path, "wb") as f:
        f.write(gzip.compress(text.encode("utf8"), 1))


def files_of(d):
    out = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(b, f)
            if os.path.getsize(p) < 100000 and len(out) < 20:
                out[os.path.relpath(p, d)] = open(p, "rb").read()
    return out


# ------------------------------------------------------------------------------------------------ C31
# directory -> (what a map line looks like, name of the key in the result)
REDUCERS = {
    "extension_counts": ("key", "ext"), "url_counts": ("key", "url"), "scheme_counts": ("key", None),
    "sentence_lengths": ("key", "key"), "utterance_dates": ("key", "year"), "link_exists": ("key", "alive"), "pii": ("key", "pii"),
    "language": ("key count", "language"), "profanity": ("key count", "profanity"),
    "high_level_domain_counts": ("word count", "high_level_domain"), "url_per_tok_counts": ("word count", "url"),
}
KEYS = ["other", "jpg", "JPG", "png", "a", "b", "A", "é", "日本", "x.y", "co.uk", "com", "http", "https", "not profane", "profane",
        "long", "un", "None", "True", "chars 10", "chars 100", "tokens 1", "1", "10", "01", "0", "-1", "1_000", "a b c", "x\"y", "{}", "\\", "'", "count", "k", "ext", "url"]


def c31(rep, tier):
    def one(s):
        rng = random.Random(s)
        name = rng.choice(sorted(REDUCERS))
        kind, field = REDUCERS[name]
        pool = [k for k in KEYS if " " not in k] if kind == "word count" else list(KEYS)
        if kind == "key" and name != "scheme_counts" or rng.random() < .3 and kind == "key":
            pool.append("")
        pool = rng.sample(pool, rng.randint(1, len(pool))) + ["k%d" % i for i in range(rng.choice([0, 0, 5, 300]))]
        n = rng.choice([0, 1, 2, 3, 10, 100, 2000])
        want, lines = {}, []
        bare = name == "url_per_tok_counts" and rng.random() < .5
        for _ in range(n):
            if bare and rng.random() < .2:
                lines.append(rng.choice([" 5", "5", " 0", ""]))  # a document without a host: no key to count for
                continue
            k = rng.choice(pool)
            if kind == "key":
                want[k] = want.get(k, 0) + 1
                lines.append(k)
            else:
                c = rng.choice([0, 1, 1, 2, 7, 255, 256, 65536, 2 ** 31, 2 ** 32 + 1, 2 ** 53 + 1, 2 ** 64, rng.randrange(10 ** 6)])
                want[k] = want.get(k, 0) + c
                lines.append("%s %d" % (k, c))
        text = "\n".join(lines) + ("\n" if lines and rng.random() < .9 else "")
        if lines and lines[-1] == "" and not text.endswith("\n"):
            text += "\n"
        what = "%s/reduce_count.py on %d lines %s" % (name, n, json.dumps(lines[:60], ensure_ascii=False))
        with Scratch() as d:
            outs = []
            perm = lines[:]
            rng.shuffle(perm)
            for t in (text, "".join(l + "\n" for l in perm)):
                rc, out, err = script("%s/reduce_count.py" % name, [], d, stdin=t)
                bad = lambda m: Violation("%s: %s" % (m, what), {"stdin.txt": t}, ["python", "wimbd/%s/reduce_count.py" % name, "<", "stdin.txt"])
                if rc != 0:
                    raise bad("fails (%s): %s" % (rc, err[-300:]))
                got = {}
                for l in out.splitlines():
                    r = json.loads(l)
                    if field is None:
                        if len(r) != 1:
                            raise bad("a row with %d keys: %s" % (len(r), l))
                        k, v = list(r.items())[0]
                    else:
                        k, v = r[field], r["count"]
                    if k in got:
                        raise bad("key %r is printed twice" % k)
                    got[k] = v
                if got != want or any(type(v) is not int for v in got.values()):
                    diff = [(k, got.get(k), want.get(k)) for k in sorted(set(got) | set(want), key=str) if got.get(k) != want.get(k)]
                    raise bad("wrong sums (key, got, expected): %r" % diff[:5])
            rep.case(what, n > 1)
    rounds(one, 31, 80)


# ------------------------------------------------------------------------------------------------ C32
def c32(rep, tier):
    def one(s):
        rng = random.Random(s)
        with Scratch() as d:
            vocab = ["", " ", "a", "A", "b", "a ", "lorem ipsum", "é", "日本語", "x\ny", "dup"] + ["t%d" % i for i in range(rng.choice([0, 3, 30]))]
            attrs = rng.random() < .4
            keep = rng.random() < .6
            ext = rng.choice([".jsonl.gz", ".jsonl", ".json.gz"])
            shards = ["s%d%s" % (i, ext) for i in range(rng.choice([1, 1, 2, 3, 5]))]
            docs = {}
            uid = 0
            for f in shards:
                docs[f] = []
                for _ in range(rng.choice([0, 1, 4, 20, 60])):
                    x = {"id": "d%d" % uid, "text": rng.choice(vocab)}
                    uid += 1
                    if attrs or rng.random() < .7:
                        x["source"] = rng.choice(["s1", "s2", "no_source", ""])
                    if rng.random() < .05:
                        x["text"] = None
                    if rng.random() < .2:
                        x["extra"] = {"k": [1, "é"]}
                    docs[f].append(x)
                body = "".join(json.dumps(x) + "\n" for x in docs[f])
                if ext.endswith(".gz"):
                    gz(os.path.join(d, f), body)
                else:
                    open(os.path.join(d, f), "w").write(body)
            listed = [t for t in vocab if rng.random() < rng.choice([.2, .5, .9])] or ["a"]
            hashes = [hashlib.md5(t.encode()).hexdigest() for t in listed] + [hashlib.md5(b"absent%d" % i).hexdigest() for i in range(rng.choice([0, 1, 4]))]
            rng.shuffle(hashes)
            if rng.random() < .2:
                hashes.insert(rng.randrange(len(hashes) + 1), rng.choice(hashes))  # a hash listed twice
            open(os.path.join(d, "block.txt"), "w").write("\n".join(hashes) + rng.choice(["\n", ""]))
            os.makedirs(os.path.join(d, "out"))
            cmd = ["--shards"] + shards + ["--blocklist", "block.txt", "--outpath", "out", "--num_processes", rng.choice([1, 2, 4])]
            cmd += ["--keep_first_occurrence"] if keep else []
            cmd += ["--just_write_attributes"] if attrs else []
            what = "deduplicate_by_hash.py %s; listed texts %r" % (" ".join(map(str, cmd)), listed)
            rel = "text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py"
            rc, out, err = script(rel, cmd, d)
            bad = lambda m: Violation("%s: %s" % (m, what), files_of(d), ["python", "wimbd/" + rel] + cmd)
            if rc is None:
                raise bad("does not terminate")
            if rc != 0:
                raise bad("fails: %s" % err[-300:])
            kept_of, dropped, per_shard, per_src = {}, 0, {}, {}
            for f in shards:
                p = os.path.join(d, "out", f)
                if not os.path.exists(p):
                    raise bad("no output for %s" % f)
                raw = gzip.open(p, "rt").read() if ext.endswith(".gz") else open(p).read()
                rows = [json.loads(l) for l in raw.splitlines() if l] if not attrs else [json.loads(l) for l in raw.split("\n") if l]
                src = [x for x in docs[f] if x["text"] is not None]
                nodoc = {x["id"] for x in docs[f] if x["text"] is None}
                rows = [r for r in rows if r["id"] not in nodoc]
                gone = set()
                if attrs:
                    if [(r["id"], r["source"]) for r in rows] != [(x["id"], x["source"]) for x in src]:
                        raise bad("%s: attribute rows are not one per document in order: %r, expected %r" % (f, [r["id"] for r in rows][:20], [x["id"] for x in src][:20]))
                    gone = {r["id"] for r in rows if r["contaminated"]}
                else:
                    byid = {x["id"]: x for x in src}
                    it = iter(src)
                    for r in rows:
                        if r != byid.get(r["id"]):
                            raise bad("%s: a kept document was changed: %r" % (f, r))
                        if not any(x["id"] == r["id"] for x in it):
                            raise bad("%s: document %s out of order or twice" % (f, r["id"]))
                    gone = {x["id"] for x in src} - {r["id"] for r in rows}
                for x in src:
                    on = x["text"] in listed
                    if x["id"] in gone:
                        if not on:
                            raise bad("document %s (text %r) is dropped but not on the blocklist" % (x["id"], x["text"]))
                        per_src[x.get("source", "no_source")] = per_src.get(x.get("source", "no_source"), 0) + 1
                        per_shard[f] = per_shard.get(f, 0) + 1
                        dropped += 1
                    elif on:
                        if not keep:
                            raise bad("document %s (text %r) is on the blocklist but kept" % (x["id"], x["text"]))
                        kept_of[x["text"]] = kept_of.get(x["text"], 0) + 1
            if keep:
                for t in listed:
                    occ = sum(1 for f in shards for x in docs[f] if x["text"] == t)
                    if occ and kept_of.get(t, 0) != 1:
                        raise bad("%d of %d documents with text %r are kept, expected 1" % (kept_of.get(t, 0), occ, t))
            lines = [l for l in out.splitlines() if "matched" in l]
            wantl = ["%d documents matched in %s" % (per_shard.get(f, 0), f) for f in shards]
            if [l for l in lines if " matched in " in l] != wantl:
                raise bad("reports %r, expected %r" % (lines, wantl))
            if sorted(l for l in lines if " matched from " in l) != sorted("%d documents were matched from %s" % (c, k) for k, c in per_src.items()) and \
               sorted(l for l in lines if " matched from " in l and not l.startswith("0 ")) != sorted("%d documents were matched from %s" % (c, k) for k, c in per_src.items()):
                raise bad("reports %r, expected per source %r" % (lines, per_src))
            if lines[-1:] != ["A total of %d documents were matched" % dropped]:
                raise bad("reports %r, but %d documents were dropped" % (lines[-1:], dropped))
            rep.case(what + " " + str(docs)[:400], dropped > 0)
    rounds(one, 32, 60)


# ------------------------------------------------------------------------------------------------ C33
TERMS = json.load(open(os.path.join(W, "sentiment_coocurrence", "demographic_terms.json"))) if os.path.exists(os.path.join(W, "sentiment_coocurrence", "demographic_terms.json")) else None


def senti(texts):
    """the contribution of every text, computed independently"""
    val = {}

    def add(t, x):
        val[t + "_sum"] = val.get(t + "_sum", 0.0) + x
        val[t + "_count"] = val.get(t + "_count", 0.0) + 1
    racial = list(TERMS["racial_terms"]) + [a + " " + b for a in TERMS["base_racial_terms"] for b in TERMS["person_terms"]]
    for text in texts:
        for s in text.split("."):
            if not s.strip():
                continue
            pol = (sum(map(ord, s)) % 17 - 8) / 8.0
            toks = set(s.split())
            for t in TERMS["male_gender_terms"]:
                if t in toks:
                    add("male", pol)
            for t in TERMS["female_gender_terms"]:
                if t in toks:
                    add("female", pol)
            for t in TERMS["religious_terms"]:
                if t in toks or t + "s" in toks:
                    add(t, pol)
            for t in racial:
                if t in s:
                    add(t.split()[0], pol)
    return val


def c33(rep, tier):
    def one(s):
        rng = random.Random(s)
        which = rng.choice(["language", "profanity", "profanity sentence", "profanity taxonomy", "sentiment_coocurrence"])
        name = which.split()[0]
        words = ["he", "she", "muslim", "muslims", "asian", "white person", "black man", "x", "yy", "zzz", "hello", "é", "日本", "him .", "a.", "b"]
        with Scratch() as d:
            os.symlink(os.path.join(base.REPO, "resources"), os.path.join(d, "resources"))
            rows = []
            bs = rng.choice([1, 1, 2, 3, 4, 5, 10, 1000])
            n = rng.choice([0, 1, bs - 1, bs, bs + 1, 2 * bs, 2 * bs + 1, 3 * bs, 7, 23]) if bs < 1000 else rng.choice([0, 1, 20])
            for i in range(n):
                r = rng.random()
                if r < .12:
                    t = rng.choice(["", " ", "\n\t", None, "\u3000"])
                elif r < .22:
                    t = rng.choice(["a", "é", "日", "\U0001f600"]) * rng.choice([40000, 60000, 99998, 99999, 100000, 100001, 150000])
                    if rng.random() < .2:
                        t = " " * (len(t) // 2) + "x" + " " * (len(t) - len(t) // 2 - 1)
                else:
                    t = " ".join(rng.choice(words) for _ in range(rng.randint(1, 8)))
                rows.append({"text": t, "id": i})
            gz(os.path.join(d, "in.json.gz"), "".join(json.dumps(r) + "\n" for r in rows))
            args = ["--in_file", "in.json.gz"] + (["--bs", bs] if bs != 1000 or rng.random() < .5 else [])
            args += ["--per_sentence"] if which.endswith("sentence") else []
            args += ["--model", "taxonomy"] if which.endswith("taxonomy") else []
            log = os.path.join(d, "log")
            rel = "%s/map_count.py" % name
            what = "%s %s; texts %s" % (rel, " ".join(map(str, args)), json.dumps([r["text"] if not r["text"] or len(r["text"]) < 100 else "%s*%d" % (r["text"][0], len(r["text"])) for r in rows])[:800])
            rc, out, err = script(rel, args, d, extra={"STUB_LOG": log})
            fs = {"in.json.gz": open(os.path.join(d, "in.json.gz"), "rb").read()}
            bad = lambda m: Violation("%s: %s" % (m, what), fs, ["python", "wimbd/" + rel] + args)
            if rc is None:
                raise bad("does not terminate")
            if rc != 0:
                raise bad("fails: %s" % err[-300:])
            elig = [r["text"] for r in rows if r["text"] and r["text"].strip() and len(r["text"]) <= 99999]
            nlong = sum(1 for r in rows if r["text"] and r["text"].strip() and len(r["text"]) > 99999)
            calls = [json.loads(l) for l in open(log)] if os.path.exists(log) else []
            seen = [t for k, t in calls if k == "one"] + [t for k, b in calls if k == "batch" for t in b]
            short = lambda l: [t if len(t) < 60 else "%s*%d" % (t[0], len(t)) for t in l]
            if which.endswith("sentence"):
                # one call per document, with its sentences
                want = [[x.strip() for x in t.split(".") if x.strip()] for t in elig]
                if [b for k, b in calls if k == "batch"] != want:
                    raise bad("the classifier saw %r, expected %r" % ([short(b) for k, b in calls][:20], [short(x) for x in want][:20]))
            elif not which.endswith("taxonomy"):
                if seen != elig:
                    raise bad("the classifier saw %d texts %r, expected %d: %r" % (len(seen), short(seen)[:20], len(elig), short(elig)[:20]))
                for k, b in calls:
                    if k == "batch" and not 0 < len(b) <= bs:
                        raise bad("a batch of %d texts, the batch size is %d" % (len(b), bs))
            want = {}
            if name == "language":
                for t in elig:
                    h = sum(map(ord, t)) % 7
                    if h != 6:
                        k = "l%d" % (h % 3) if h != 5 else "un"
                        want[k] = want.get(k, 0) + 1
            elif which == "profanity":
                for t in elig:
                    k = "profane" if sum(map(ord, t)) % 3 == 0 else "not profane"
                    want[k] = want.get(k, 0) + 1
            elif which.endswith("sentence"):
                for t in elig:
                    k = "profane" if any(sum(map(ord, x.strip())) % 3 == 0 for x in t.split(".") if x.strip()) else "not profane"
                    want[k] = want.get(k, 0) + 1
            elif name == "sentiment_coocurrence":
                want = senti(elig)
            if nlong and name != "sentiment_coocurrence":
                want["long"] = nlong
            got = {}
            for l in out.splitlines():
                k, v = l.rsplit(" ", 1)
                if k in got:
                    raise bad("%s is printed twice" % k)
                got[k] = float(v)
            if which.endswith("taxonomy"):
                if got.get("profane", 0) + got.get("not profane", 0) != len(elig) or got.get("long", 0) != nlong:
                    raise bad("%r for %d documents and %d long ones" % (got, len(elig), nlong))
            elif {k: v for k, v in got.items() if v} != {k: float(v) for k, v in want.items() if v}:
                raise bad("totals %r, expected %r" % (got, want))
            rep.case(what, len(elig) > 0)
    rounds(one, 33, 80)


# ------------------------------------------------------------------------------------------------ C34 C35 C36
def es(check):
    def f(rep, tier):
        drv = os.path.join(VERIF, "lib", "es_driver.py")

        def one(s):
            with Scratch() as d:
                seed = int(s * 2 ** 40)
                rc, out, err = run([sys.executable, drv, check, str(seed), str(400 if DEEP else 150)], cwd=d, timeout=120, extra=env_py({"WIMBD_REPO": base.REPO}))
                if rc is None:
                    raise Violation("%s: does not terminate (es_driver.py %s %d)" % (check, check, seed))
                try:
                    r = json.loads(out.splitlines()[-1])
                except (ValueError, IndexError):
                    raise Undecided("the driver fails: " + err[-300:])
                if r.get("undecided"):
                    raise Undecided(r["undecided"])
                rep.absorb(r)
                if r["violation"]:
                    raise Violation(r["violation"], {}, ["python", "lib/es_driver.py", check, seed, 150])
        rounds(one, 34 + ord(check[-1]), 8)
    return f


# ------------------------------------------------------------------------------------------------ C37
# texts whose SHA-1 starts with fff, ffe, ffd, ffc, ffb
SPECIAL = {}


def special():
    i = 0
    while sum(len(v) for v in SPECIAL.values()) < 5 * 4 and i < 400000:
        t = "text %d" % i
        h = hashlib.sha1(t.encode()).hexdigest()[:3]
        if h in ("fff", "ffe", "ffd", "ffc", "ffb") and len(SPECIAL.setdefault(h, [])) < 4:
            SPECIAL[h].append(t)
        i += 1
    return [t for v in SPECIAL.values() for t in v]


def c37(rep, tier):
    sp = special()
    part_of = {}

    def split_n(rng, d):
        rel = "utils/file_split.py"
        os.makedirs(os.path.join(d, "in"))
        files = {}
        for i in range(rng.choice([1, 1, 2, 3])):
            nm = rng.choice(["f%d", "a.b_%d", "x y %d", "data_%d"]) % i
            rows = [json.dumps({"text": rng.choice(["", "a", "é", "日本", "\u2028", "x" * 50]), "n": k}, ensure_ascii=rng.random() < .5) for k in range(rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 20, 50]))]
            files[nm] = rows
            gz(os.path.join(d, "in", nm + ".jsonl.gz"), "\n".join(rows) + ("\n" if rows and rng.random() < .8 else ""))
        n = rng.choice([1, 2, 3, 4, 5, 7, 11])
        args = ["--in_folder", "in"] + (["--n", n] if n != 5 or rng.random() < .5 else [])
        what = "%s %s; rows %r" % (rel, " ".join(map(str, args)), {k: len(v) for k, v in files.items()})
        src = files_of(d)
        rc, out, err = script(rel, args, d)
        bad = lambda m: Violation("%s: %s" % (m, what), src, ["python", "wimbd/" + rel] + args)
        if rc != 0:
            raise bad("fails (%s): %s" % (rc, err[-300:]))
        for nm, rows in files.items():
            got = []
            for i in range(n):
                p = os.path.join(d, "in", "%s_%d.json.gz" % (nm, i))
                if not os.path.exists(p):
                    raise bad("part %d of %s is missing" % (i, nm))
                t = gzip.open(p, "rt", newline="").read()
                part = t.split("\n")
                if part[-1] == "":
                    part.pop()
                got += part
            if got != rows:
                raise bad("%s: the parts hold %d rows, the file %d; first difference at row %s" % (nm, len(got), len(rows), next((i for i, (a, b) in enumerate(zip(got, rows)) if a != b), min(len(got), len(rows)))))
            if open(os.path.join(d, "in", nm + ".jsonl.gz"), "rb").read() != src["in/%s.jsonl.gz" % nm]:
                raise bad("the input %s was changed" % nm)
            extra = [f for f in os.listdir(os.path.join(d, "in")) if f.startswith(nm + "_") and f not in ["%s_%d.json.gz" % (nm, i) for i in range(n)]]
            if extra and not any(f.startswith(o + ".") or f.startswith(o + "_") for o in files for f in extra if o != nm):
                raise bad("more parts: %r" % extra)
        rep.case(what, any(len(v) > 1 for v in files.values()))

    def split_hash(rng, d):
        rel = "utils/split_files.py"
        sub = rng.choice(["", "sub/", "a/b/"])
        nm = rng.choice(["f.jsonl.gz", "data.json.gz", "x.gz"])
        if sub:
            os.makedirs(os.path.join(d, sub))
        pool = sp + ["", "a", "b", "é", "日本", "x\ny", " "] + ["t%d" % i for i in range(20)]
        rows = []
        for k in range(rng.choice([0, 1, 5, 40])):
            r = {"text": rng.choice(pool + [None]), "n": k}
            if rng.random() < .2:
                r = {"n": k, "meta": {"id": "inner", "é": [1]}, "text": r["text"]}
            rows.append(r)
        with_id = rng.random() < .15 and rows
        if with_id:
            rows[rng.randrange(len(rows))]["id"] = rng.choice(["x", "", None, 0])
        gz(os.path.join(d, sub + nm), "".join(json.dumps(r) + "\n" for r in rows))
        args = ["--in_file", sub + nm, "--out_prefix", "out"]
        if not sub:
            os.makedirs(os.path.join(d, "out"), exist_ok=rng.random() < 2)
        what = "%s %s; texts %r" % (rel, " ".join(args), [r["text"] for r in rows][:40])
        src = files_of(d)
        rc, out, err = script(rel, args, d)
        bad = lambda m: Violation("%s: %s" % (m, what), src, ["python", "wimbd/" + rel] + args)
        if with_id:
            if rc == 0:
                raise bad("a row with an id is not refused")
            rep.case(what)
            return
        if rc != 0:
            raise bad("fails (%s): %s" % (rc, err[-300:]))
        base_out = os.path.join(d, "out", sub + nm).replace(".jsonl", "").replace(".gz", "")
        place = {}
        total = 0
        for part in ("train", "valid", "test"):
            p = "%s.%s.jsonl.gz" % (base_out, part)
            if not os.path.exists(p):
                raise bad("the %s part is missing" % part)
            last = -1
            for l in gzip.open(p, "rt", encoding="utf8"):
                r = json.loads(l)
                total += 1
                i = r.get("n")
                if not isinstance(r.pop("id", None), str):
                    raise bad("a row without an id: %s" % l[:100])
                if i in place:
                    raise bad("row %s is written twice" % i)
                if not isinstance(i, int) or not 0 <= i < len(rows) or r != rows[i]:
                    raise bad("a row was changed: %s" % l[:200])
                if i <= last:
                    raise bad("rows of the %s part are out of order" % part)
                last = i
                place[i] = part
        if total != len(rows):
            raise bad("%d of %d rows are written" % (total, len(rows)))
        for i, r in enumerate(rows):
            k = r["text"] or ""
            if part_of.setdefault(k, place[i]) != place[i]:
                raise bad("text %r is once in the %s part and once in the %s part" % (k, part_of[k], place[i]))
        rep.case(what, len(rows) > 1)

    def one(s):
        rng = random.Random(s)
        with Scratch() as d:
            (split_n if rng.random() < .5 else split_hash)(rng, d)
    rounds(one, 37, 80)


PY = dict(C31=c31, C32=c32, C33=c33, C34=es("C34"), C35=es("C35"), C36=es("C36"), C37=c37)
