"""Concrete oracles: drive the freshly built `wimbd` and compare with independent models."""
import collections, gzip, json, os, random, re, shutil, signal, subprocess, tempfile, time
from base import *

WORDS = ["a", "b", "c", "foo", "bar", "the", "of", "x1", "zed", "quux"]


# ------------------------------------------------------------------------------ corpora
class Corpus:
    """files: list of (name, [doc]) with doc = str text | None (null) | 'MISSING' marker"""

    def __init__(self, rng, nfiles=None, ndocs=8, vocab=None, maxlen=10, odd=True):
        self.files = []
        vocab = vocab or rng.sample(WORDS, rng.randint(1, 5))
        self.vocab = vocab
        for i in range(nfiles if nfiles is not None else rng.randint(1, 4)):
            docs = []
            for _ in range(rng.randint(0, ndocs)):
                z = rng.random()
                if odd and z < 0.06:
                    docs.append(("null", None))
                elif odd and z < 0.12:
                    docs.append(("missing", None))
                elif odd and z < 0.18:
                    docs.append(("text", ""))
                else:
                    docs.append(("text", " ".join(rng.choice(vocab) for _ in range(rng.randint(0, maxlen)))))
            self.files.append(("f%d.json.gz" % i, docs))

    def line(self, d):
        kind, t = d
        if kind == "null":
            return b'{"id": 1, "text": null}\n'
        if kind == "missing":
            return b'{"id": 2}\n'
        return (json.dumps({"text": t, "id": 3}) + "\n").encode()

    def write(self, d, rng=None):
        paths = []
        for name, docs in self.files:
            data = b"".join(self.line(x) for x in docs)
            if data and rng and rng.random() < 0.3:
                data = data[:-1]
            cuts = [0, len(data)] if not rng or rng.random() < 0.6 else [0, rng.randint(0, len(data)), len(data)]
            p = os.path.join(d, name)
            with open(p, "wb") as f:
                for a, b in zip(cuts, cuts[1:]):
                    f.write(gzip.compress(data[a:b], 1))
            paths.append(p)
        return paths

    def sizes(self, rng_final_newline=None):
        return [[len(self.line(x)) for x in docs] for _, docs in self.files]

    def docs(self, limit=None, file_limit=None):
        """processed documents: (file index, 1-based line, text or None)"""
        for i, (_, docs) in enumerate(self.files[: file_limit if file_limit is not None else None]):
            for j, (k, t) in enumerate(docs[: limit if limit is not None else None]):
                yield i, j + 1, t

    def desc(self):
        return "; ".join("%s=%r" % (n, [t if k == "text" else k.upper() for k, t in docs]) for n, docs in self.files)


def grams(tokens, n):
    return [tuple(tokens[i:i + n]) for i in range(len(tokens) - n + 1)]


def gram_counts(c, n, limit=None, file_limit=None):
    ct = collections.Counter()
    for _, _, t in c.docs(limit, file_limit):
        if t is not None:
            ct.update(grams(t.split(), n))
    return ct


def rows(out, what, cmd, files):
    r = []
    for l in out.splitlines():
        try:
            r.append(json.loads(l))
        except ValueError:
            raise Violation("output line is not JSON: %r: %s" % (l, what), files, cmd)
    return r


def keep_files(d):
    fs = {}
    for root, _, names in os.walk(d):
        for n in names:
            p = os.path.join(root, n)
            try:
                if os.path.getsize(p) < 200000:
                    fs[os.path.relpath(p, d)] = open(p, "rb").read()
            except OSError:
                pass
    return fs


class Env:
    def __init__(self, rep, binpath):
        self.rep, self.bin = rep, binpath

    def wimbd(self, args, cwd, timeout=120, extra=None, pre=None):
        cmd = (pre or []) + [self.bin] + [str(a) for a in args]
        rc, out, err = run(cmd, cwd=cwd, timeout=timeout, extra=extra)
        if rc is None:
            # a busy machine, or a command that waits forever?  give it a second, longer chance
            rc, out, err = run(cmd, cwd=cwd, timeout=timeout * 2, extra=extra)
        return rc, out, err

    def ok(self, args, cwd, what, **kw):
        rc, out, err = self.wimbd(args, cwd, **kw)
        cmd = ["wimbd"] + [str(a) for a in args]
        if rc is None:
            raise Violation("the command does not terminate: %s" % what, keep_files(cwd), cmd)
        if rc != 0:
            raise Violation("the command failed (status %s): %s: %s" % (rc, err.strip().splitlines()[-1:] or "", what), keep_files(cwd), cmd)
        return out


def opt_common(rng, c):
    a, limit, flimit = [], None, None
    if rng.random() < 0.25:
        limit = rng.randint(0, 9)
        a += ["--limit", limit]
    if rng.random() < 0.15:
        flimit = rng.randint(1, len(c.files) + 1)
        a += ["--file-limit", flimit]
    if rng.random() < 0.8:
        a += ["-j", rng.choice([0, 1, 1, 2, 3, 8])]
    if rng.random() < 0.85:
        a += ["-q"]
    return a, limit, flimit


# ------------------------------------------------------------------------------ topk / botk
def check_ranked(e, rng, cmd, n_rounds_hint=None):
    bot = cmd == "botk"
    with Scratch() as d:
        c = Corpus(rng, ndocs=12 if rng.random() < 0.5 else 40)
        paths = c.write(d, rng)
        n = rng.choice([1, 1, 2, 2, 3, 4, 6])
        k = rng.choice([1, 2, 3, 5, 8, 20, 1000])
        a, limit, flimit = opt_common(rng, c)
        if bot:
            # botk shuffles the files before any of them is processed; a file limit is applied first
            pass
        tiny = rng.random() < 0.2
        h = rng.choice([1, 2, 3]) if tiny else rng.choice([5, 6, 7])
        size = rng.choice(["8B", "24B", "64B", "100B"]) if tiny else rng.choice(["1MiB", "1MiB", "1000000B"])
        a += ["-n", n, "-k", k, "-h", h, "--size", size]
        if rng.random() < 0.5:
            a += ["--seed", rng.choice([0, 1, 42, 2 ** 64 - 1])]
        if bot:
            thr = rng.choice([None, None, None, 2, 3, 5, 1, 4294967295])
            pk = rng.choice([None, None, None, None, 0.5, 1.0])
            if pk is not None:
                a += ["--p-keep", pk]
        else:
            thr, pk = rng.choice([None, None, 0, 1, 2, 4]), None
            if rng.random() < 0.4:
                a += ["--u64"]
        if thr is not None:
            a += ["--threshold", thr]
        full = [cmd, "--json"] + a + [os.path.basename(p) for p in paths]
        what = "%s; corpus %s" % (" ".join(map(str, full)), c.desc())
        out = e.ok(full, d, what)
        rs = rows(out, what, full, keep_files(d))
        true = gram_counts(c, n, limit, flimit)
        bad = lambda m: Violation("%s: %s" % (m, what), keep_files(d), full)
        got = []
        for i, r in enumerate(rs):
            if r.get("rank") != i + 1:
                raise bad("row %d has rank %r" % (i, r.get("rank")))
            if r.get("string") != " ".join(r["tokens"]):
                raise bad("row %d has string %r" % (i, r.get("string")))
            got.append((tuple(r["tokens"]), r["count"]))
        if len(set(g for g, _ in got)) != len(got):
            raise bad("an ngram is reported twice")
        if len(got) > k:
            raise bad("%d rows for k=%d" % (len(got), k))
        order = [x for _, x in got]
        if order != sorted(order, reverse=not bot):
            raise bad("counts are not in order: %s" % order)
        for g, x in got:
            if g not in true:
                raise bad("%r is reported but does not occur" % (g,))
            if x < true[g]:
                raise bad("%r is reported %d times, it occurs %d times" % (g, x, true[g]))
            if not bot and x <= (1 if thr is None else thr):
                raise bad("%r with count %d is not above the threshold" % (g, x))
        if bot:
            elig = {g: x for g, x in true.items() if x < (4294967295 if thr is None else thr)}
        else:
            elig = {g: x for g, x in true.items() if x > (1 if thr is None else thr)}
        if not tiny:
            for g, x in got:
                if x != true[g]:
                    raise bad("%r is reported %d times, it occurs %d times" % (g, x, true[g]))
                if g not in elig:
                    raise bad("%r with count %d does not pass the threshold" % (g, x))
            if pk is None or pk == 1.0:
                want = sorted(elig.values(), reverse=not bot)[:k]
                if order != want:
                    raise bad("reported counts %s, expected %s" % (order, want))
        elif not bot and len(got) < min(k, len(elig)):
            raise bad("%d rows, at least %d ngrams are above the threshold" % (len(got), len(elig)))
        # the same rows reach the file
        if rng.random() < 0.3 and pk is None:
            o = os.path.join(d, "out.jsonl")
            full2 = full + ["-o", o]
            out2 = e.ok(full2, d, what)
            if open(o).read() != out2:
                raise bad("the file differs from the JSON output")
        e.rep.case(what, len(true) > 2)


def c10(e, tier):
    rng = random.Random(SEED * 7919 + 10)
    parallel(lambda s: check_ranked(e, random.Random(s), "topk"), [rng.random() for _ in range(4000 if DEEP else 500)])
    many_workers(e, "topk", 60 if DEEP else 10)


def c11(e, tier):
    rng = random.Random(SEED * 7919 + 11)
    parallel(lambda s: check_ranked(e, random.Random(s), "botk"), [rng.random() for _ in range(4000 if DEEP else 500)])
    many_workers(e, "botk", 60 if DEEP else 10)


def many_workers(e, cmd, rounds):
    """larger corpora over many files and workers: exact whatever the schedule"""
    rng = random.Random(SEED * 31 + len(cmd) + (cmd == "botk"))
    for _ in range(rounds):
        with Scratch() as d:
            c = Corpus(rng, nfiles=16, ndocs=120, vocab=WORDS[:6], maxlen=14)
            paths = c.write(d, rng)
            n, k = rng.choice([(2, 10), (3, 40), (1, 4), (2, 1000)])
            full = [cmd, "--json", "-q", "-n", n, "-k", k, "-h", 5, "--size", "4MiB", "-j", rng.choice([4, 8, 16])] + [os.path.basename(p) for p in paths]
            what = " ".join(map(str, full)) + "; 16 files over 6 words"
            rs = rows(e.ok(full, d, what), what, full, {})
            true = gram_counts(c, n)
            elig = true if cmd == "botk" else {g: x for g, x in true.items() if x > 1}
            want = sorted(elig.values(), reverse=cmd == "topk")[:k]
            got = [r["count"] for r in rs]
            if got != want or any(true.get(tuple(r["tokens"])) != r["count"] for r in rs) or len({tuple(r["tokens"]) for r in rs}) != len(rs):
                raise Violation("reported counts %s, expected %s: %s; corpus %s" % (got[:20], want[:20], what, c.desc()[:2000]), keep_files(d), full)
            e.rep.case(what + str(want[:5]))


# ------------------------------------------------------------------------------ unique
def c12(e, tier):
    rng0 = random.Random(SEED * 7919 + 12)

    def one(s):
        rng = random.Random(s)
        with Scratch() as d:
            c = Corpus(rng)
            c.write(d, rng)
            n, h = rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2, 5])
            size = rng.choice([1, 3, 10, 64, 1000, 1 << 20])
            a, limit, flimit = opt_common(rng, c)
            seed = rng.choice([0, 7, 2 ** 64 - 1, rng.randrange(2 ** 64)])
            base = ["unique", "--json"] + a + ["-n", n, "-h", h, "--size", "%dB" % size]
            names = [f for f, _ in c.files]
            true = gram_counts(c, n, limit, flimit)

            def get(args, where=d):
                full = args
                what = "%s; corpus %s" % (" ".join(map(str, full)), c.desc())
                out = e.ok(full, where, what)
                m = re.fullmatch(r'\{"unique_count":(\d+)\}\n', out)
                if not m:
                    raise Violation("unexpected output %r: %s" % (out, what), keep_files(d), full)
                return int(m.group(1)), what, full
            v, what, full = get(base + ["--seed", seed] + names)
            bad = lambda m: Violation("%s: %s" % (m, what), keep_files(d), full)
            if (v == 0) != (not true) or v > size or v > h * len(true):
                raise bad("reported %d unique ngrams of %d" % (v, len(true)))
            # order, workers and repetition do not matter
            if limit is None and flimit is None:
                d2 = os.path.join(d, "again")
                os.mkdir(d2)
                alld = [x for _, docs in c.files for x in docs]
                rng.shuffle(alld)
                c2 = Corpus(rng, nfiles=0)
                times = 300 if rng.random() < 0.3 else rng.randint(1, 3)
                c2.files = [("g.json.gz", alld * times)]
                c2.write(d2)
                args2 = ["unique", "--json", "-q", "-n", n, "-h", h, "--size", "%dB" % size, "--seed", seed, "-j", rng.choice([1, 3]), "g.json.gz"]
                v2, _, _ = get(args2, d2)
                if v2 != v:
                    raise bad("the same documents shuffled, in one file, %d times over give %d, not %d" % (times, v2, v))
            if h == 1 and size >= 1 << 20 and v != len(true):
                # a collision?  other seeds must not agree
                vs = [get(base + ["--seed", rng.randrange(2 ** 64)] + names)[0] for _ in range(4)]
                if all(x != len(true) for x in vs):
                    raise bad("reported %d (with other seeds %s), there are %d distinct ngrams" % (v, vs, len(true)))
            e.rep.case(what, len(true) > 1)
    parallel(one, [rng0.random() for _ in range(3000 if DEEP else 350)])


# ------------------------------------------------------------------------------ count
def c13(e, tier):
    rng0 = random.Random(SEED * 7919 + 13)

    def one(s):
        rng = random.Random(s)
        with Scratch() as d:
            c = Corpus(rng, vocab=rng.sample(WORDS, rng.randint(1, 3)))
            c.write(d, rng)
            a, limit, flimit = opt_common(rng, c)
            searches = []
            for _ in range(rng.randint(1, 6)):
                z = rng.random()
                if z < 0.08:
                    searches.append("nope")
                elif z < 0.2:
                    # longer than most documents
                    searches.append(" ".join(rng.choice(c.vocab) for _ in range(rng.randint(6, 14))))
                else:
                    searches.append(rng.choice([" ", "  "]).join(rng.choice(c.vocab) for _ in range(rng.randint(1, 4))))
            if rng.random() < 0.2:
                searches.append(searches[0])
            full = ["count", "--json"] + a
            for x in searches:
                full += ["-s", x]
            full += [f for f, _ in c.files]
            what = "%r; corpus %s" % (full, c.desc())
            rs = rows(e.ok(full, d, what), what, full, keep_files(d))
            want = {}
            for x in searches:
                t = tuple(x.split())
                want[t] = sum(sum(1 for g in grams(doc.split(), len(t)) if g == t) for _, _, doc in c.docs(limit, flimit) if doc is not None)
            got = [(tuple(r["tokens"]), r["count"]) for r in rs]
            if len(got) != len(want) or dict(got) != want or any(r["string"] != " ".join(r["tokens"]) for r in rs):
                raise Violation("reported %s, expected %s: %s" % (got, want, what), keep_files(d), full)
            e.rep.case(what, sum(want.values()) > 1)
    parallel(one, [rng0.random() for _ in range(4000 if DEEP else 600)])

    # many workers on the same words
    for _ in range(20 if DEEP else 4):
        with Scratch() as d:
            c = Corpus(rng0, nfiles=16, ndocs=150, vocab=WORDS[:2], maxlen=14)
            c.write(d, rng0)
            full = ["count", "--json", "-q", "-j", 16, "-s", "a", "-s", "a b", "-s", "a a a"] + [f for f, _ in c.files]
            rs = rows(e.ok(full, d, "count over 16 files"), "count", full, {})
            for r in rs:
                t = tuple(r["tokens"])
                w = sum(sum(1 for g in grams(doc.split(), len(t)) if g == t) for _, _, doc in c.docs() if doc is not None)
                if w != r["count"]:
                    raise Violation("%r counted %d times, expected %d, with 16 workers: %r" % (t, r["count"], w, full), keep_files(d), full)
            e.rep.case("16 workers, %d documents" % sum(len(x) for _, x in c.files))


# ------------------------------------------------------------------------------ search
PATTERNS = ["a", "b", "foo", "fo+", "ba[rz]", "a|ab", "ab|a", "[ab]+", "^a", "b$", r"\ba\b", "(a )+", "a b", "a.b", "x1", "zz", "a*", "é", "日本?", ".", r"\s+", "(?i)FOO", "[^a]", "o", r"\d", "a b a"]
TEXTS = ["a", "b", "ab", "foo", "fooo", "bar", "baz", "a b a b a", "é", "日本", "x1", "the", "A", "FOO", "aa", ""]


def rust_find_iter(pat, text):
    """non-overlapping leftmost-first matches as the regex crate defines them, as character offsets"""
    r = re.compile(pat)
    out, pos, last = [], 0, None
    while pos <= len(text):
        m = r.search(text, pos)
        if not m:
            break
        if m.start() == m.end() and m.start() == last:
            pos = m.end() + 1
            # an empty match right after a match is not reported
            continue
        out.append((m.start(), m.end()))
        last = m.end()
        pos = m.end() if m.end() > m.start() else m.end()
        if m.end() == m.start():
            pos = m.end() + 1
            last = None if pos > len(text) else last
            last = m.end()
    return out


def search_corpus(rng, **kw):
    c = Corpus(rng, **kw)
    for i, (name, docs) in enumerate(c.files):
        nd = []
        for k, t in docs:
            if k == "text" and t:
                t = rng.choice([" ", " ", "", "  "]).join(rng.choice(TEXTS) for _ in range(rng.randint(0, 6)))
            nd.append((k, t))
        c.files[i] = (name, nd)
    return c


def expected_matches(c, pats, names, limit, flimit):
    exp = {}
    for p in set(pats):
        per = {}
        total = 0
        for i, ln, t in c.docs(limit, flimit):
            if t is None:
                continue
            ms = rust_find_iter(p, t)
            total += len(ms)
            if ms:
                b = lambda k: len(t[:k].encode())
                per.setdefault(names[i], []).append((ln, t, [(b(x), b(y)) for x, y in ms]))
        exp[p] = (total, per)
    return exp


def search_round(e, s, locations):
    rng = random.Random(s)
    with Scratch() as d:
        c = search_corpus(rng)
        c.write(d, rng)
        a, limit, flimit = opt_common(rng, c)
        pats = [rng.choice(PATTERNS) for _ in range(rng.randint(1, 5))]
        names = [f for f, _ in c.files]
        full = ["search", "--json"] + a
        for p in pats:
            full += ["-p", p]
        L = None
        with_loc = locations or rng.random() < 0.5
        if with_loc:
            full.append("--with-locations")
            if rng.random() < 0.5:
                L = rng.choice([0, 1, 2, 3, 5, 50])
                full += ["--locations-limit", L]
        full += names
        what = "%r; corpus %s" % (full, c.desc())
        rs = rows(e.ok(full, d, what), what, full, keep_files(d))
        exp = expected_matches(c, pats, names, limit, flimit)
        bad = lambda m: Violation("%s: %s" % (m, what), keep_files(d), full)
        if sorted(r["pattern"] for r in rs) != sorted(exp):
            raise bad("patterns reported: %s" % [r["pattern"] for r in rs])
        for r in rs:
            total, per = exp[r["pattern"]]
            if r["count"] != total:
                raise bad("%r is reported to match %d times, expected %d" % (r["pattern"], r["count"], total))
            if with_loc != ("matches" in r):
                raise bad("locations %s" % ("missing" if with_loc else "not asked for"))
            if not with_loc or not locations:
                continue
            got = {f: [(m["line_num"], m["text"], [(x["start_col"], x["end_col"]) for x in m["submatches"]]) for m in ms] for f, ms in r["matches"].items()}
            if L is None:
                if got != per:
                    raise bad("locations of %r are %s, expected %s" % (r["pattern"], got, per))
            else:
                cnt = 0
                for f, ms in got.items():
                    if not ms:
                        raise bad("file %s is listed without matches" % f)
                    lines = [m[0] for m in ms]
                    if lines != sorted(set(lines)):
                        raise bad("lines of %s listed as %s" % (f, lines))
                    real = {m[0]: m for m in per.get(f, [])}
                    for ln, t, subs in ms:
                        if ln not in real or real[ln][1] != t or not subs:
                            raise bad("%r listed in %s line %d: %r %s" % (r["pattern"], f, ln, t, subs))
                        it = iter(real[ln][2])
                        if not all(x in it for x in subs):
                            raise bad("%r in %s line %d: columns %s, the matches are %s" % (r["pattern"], f, ln, subs, real[ln][2]))
                        cnt += len(subs)
                if cnt != min(L, total):
                    raise bad("%d locations of %r listed, limit %d, %d matches" % (cnt, r["pattern"], L, total))
        e.rep.case(what, sum(t for t, _ in exp.values()) > 1)


def c14(e, tier):
    rng = random.Random(SEED * 7919 + 14)
    parallel(lambda s: search_round(e, s, False), [rng.random() for _ in range(4000 if DEEP else 600)])


def c15(e, tier):
    rng = random.Random(SEED * 7919 + 15)
    parallel(lambda s: search_round(e, s, True), [rng.random() for _ in range(4000 if DEEP else 700)])


# ------------------------------------------------------------------------------ stats
def stats_expected(c, names, limit, flimit, final_nl):
    docs = list(c.docs(limit, flimit))
    toks = [(i, ln, len(t.split())) for i, ln, t in docs if t is not None]
    tb = 0
    for i, (_, ds) in enumerate(c.files[: flimit if flimit is not None else None]):
        for j, x in enumerate(ds[: limit if limit is not None else None]):
            tb += len(c.line(x)) - (1 if (j == len(ds) - 1 and not final_nl[i]) else 0)
    mx = max((n for _, _, n in toks), default=0)
    mn = min((n for _, _, n in toks), default=2 ** 64 - 1)
    return dict(total_documents=len(docs), total_tokens=sum(n for _, _, n in toks), total_bytes=tb, document_max_tokens=mx, document_min_tokens=mn,
                maxd=sorted((names[i], ln, n) for i, ln, n in toks if n == mx), mind=sorted((names[i], ln, n) for i, ln, n in toks if n == mn)), bool(toks)


def stats_round(e, s, part, big=False):
    rng = random.Random(s)
    with Scratch() as d:
        if big:
            c = Corpus(rng, nfiles=16, ndocs=60, maxlen=rng.choice([3, 14]))
        else:
            c = Corpus(rng, maxlen=rng.choice([1, 2, 10]))
        names = [f for f, _ in c.files]
        fin = [rng.random() < 0.7 for _ in names]
        for (name, docs), nl in zip(c.files, fin):
            data = b"".join(c.line(x) for x in docs)
            if data and not nl:
                data = data[:-1]
            k = rng.randint(0, len(data)) if rng.random() < 0.3 else 0
            open(os.path.join(d, name), "wb").write(gzip.compress(data[:k]) + gzip.compress(data[k:]) if k else gzip.compress(data))
        a, limit, flimit = opt_common(rng, c)
        if big:
            a, limit, flimit = ["-q", "-j", rng.choice([4, 8, 16])], None, None
        full = ["stats", "--json"] + a + names
        what = "%r; final newlines %s; corpus %s" % (full, fin, c.desc()[:4000])
        rs = rows(e.ok(full, d, what), what, full, keep_files(d))
        bad = lambda m: Violation("%s: %s" % (m, what), keep_files(d), full)
        if len(rs) != 1:
            raise bad("%d rows" % len(rs))
        r = rs[0]
        exp, any_text = stats_expected(c, names, limit, flimit, fin)
        if part == "totals":
            for k in ("total_documents", "total_tokens", "total_bytes"):
                if r[k] != exp[k]:
                    raise bad("%s is %s, expected %s" % (k, r[k], exp[k]))
        else:
            if any_text:
                for k in ("document_max_tokens", "document_min_tokens"):
                    if r[k] != exp[k]:
                        raise bad("%s is %s, expected %s" % (k, r[k], exp[k]))
            for k, w in (("max_token_documents", exp["maxd"]), ("min_token_documents", exp["mind"])):
                got = sorted((x["path"], x["line"], x["num_tokens"]) for x in r[k])
                if got != w:
                    raise bad("%s are %s, expected %s" % (k, got, w))
        e.rep.case(what, any_text)


def c16(e, tier):
    rng = random.Random(SEED * 7919 + 16)
    parallel(lambda s: stats_round(e, s, "totals"), [rng.random() for _ in range(4000 if DEEP else 500)])
    parallel(lambda s: stats_round(e, s, "totals", True), [rng.random() for _ in range(100 if DEEP else 12)], 2)


def c17(e, tier):
    rng = random.Random(SEED * 7919 + 17)
    parallel(lambda s: stats_round(e, s, "extremes"), [rng.random() for _ in range(4000 if DEEP else 600)])
    parallel(lambda s: stats_round(e, s, "extremes", True), [rng.random() for _ in range(200 if DEEP else 25)], 2)


# ------------------------------------------------------------------------------ lines, failures
COMMANDS = {
    "topk": ["topk", "--size", "64KiB", "-n", "1", "--json", "-q", "--threshold", "0", "-k", "1000"],
    "botk": ["botk", "--size", "64KiB", "-n", "1", "--json", "-q", "-k", "1000"],
    "unique": ["unique", "--size", "64KiB", "-n", "1", "--json", "-q"],
    "count": ["count", "-s", "a", "--json", "-q"],
    "search": ["search", "-p", "a", "--json", "-q"],
    "searchloc": ["search", "-p", "a", "--with-locations", "--json", "-q"],
    "stats": ["stats", "--json", "-q"],
}
OUTCMDS = ["topk", "botk", "count", "search", "searchloc", "stats"]


def large_round(e, spec):
    """a file of several MB or of more than 2^16 lines, damaged (or not) at a given place; every line must count"""
    name, n, size, kind, where, jobs, seed = spec
    rng = random.Random(seed)
    with Scratch() as d:
        pool = [(b'{"text": "a %s"}\n' % rng.randbytes(max(1, size - 14)).translate(bytes(b"bcdefgh"[i % 7] for i in range(256)))) for _ in range(min(n, 50))]
        lines = [rng.choice(pool) for _ in range(n)]
        at = min(n - 1, int(n * where))
        if kind == "json":
            lines[at] = b'{"text": "a"\n'
        elif kind == "utf8":
            lines[at] = b'{"text": "\xff"}\n'
        data = b"".join(lines)
        z = gzip.compress(data, 1)
        if kind == "trunc":
            z = z[: int(len(z) * where)]
        elif kind == "crc":
            z = z[:-6] + bytes([z[-6] ^ 0x55]) + z[-5:]
        open(os.path.join(d, "big.json.gz"), "wb").write(z)
        open(os.path.join(d, "small.json.gz"), "wb").write(gzip.compress(b'{"text": "a"}\n' * 3))
        o = os.path.join(d, "out.jsonl") if name in OUTCMDS and rng.random() < 0.5 else None
        full = COMMANDS[name] + ["-j", jobs] + (["-o", o] if o else []) + ["big.json.gz", "small.json.gz"]
        what = "%r; big has %d lines of %d bytes, damage %s at %s" % (full, n, size, kind, where)
        rc, out, err = e.wimbd(full, d, timeout=120)
        bad = lambda m: Violation("%s: %s" % (m, what), keep_files(d), full)
        if rc is None:
            raise bad("does not terminate")
        if kind != "none":
            if rc == 0:
                raise bad("succeeded although big cannot be processed, printing %r" % out[:300])
            if out.strip() or (o and os.path.exists(o) and open(o).read().strip()):
                raise bad("failed but reported %r" % out[:300])
            if not err.strip():
                raise bad("failed without an error message")
        else:
            if rc != 0:
                raise bad("failed: %s" % err.strip()[-300:])
            r = rows(out, what, full, keep_files(d))
            if name == "stats":
                if r[0]["total_documents"] != n + 3 or r[0]["total_bytes"] != len(data) + 3 * 14:
                    raise bad("%s documents and %s bytes, expected %d and %d" % (r[0]["total_documents"], r[0]["total_bytes"], n + 3, len(data) + 42))
            elif name == "count" and r[0]["count"] != n + 3:
                raise bad("%s occurrences, expected %d" % (r[0]["count"], n + 3))
            elif name == "search" and r[0]["count"] != n + 3:
                raise bad("%s matches, expected %d" % (r[0]["count"], n + 3))
            elif name == "searchloc":
                ns = [x["line_num"] for x in r[0]["matches"].get("big.json.gz", [])]
                if ns != list(range(1, n + 1)):
                    raise bad("%d matching lines listed, expected lines 1 to %d" % (len(ns), n))
        e.rep.case(what)


def large_specs(rng, failing):
    kinds = ["json", "utf8", "trunc", "crc"] if failing else ["none"]
    cmds = ["stats", "count", "search", "searchloc", "unique"] if failing else ["stats", "count", "search", "searchloc"]
    res = []
    for n, size in [(6000, 1000), (70000, 20), (3, 1500000), (40, 100000)] + ([(300000, 15), (20000, 1000)] if DEEP else []):
        for i, k in enumerate(kinds if DEEP or failing and n != 70000 else kinds[:1]):
            res.append((rng.choice(["stats", "count"]) if n * size > 5000000 else rng.choice(cmds), n, size, k, rng.choice([0.5, 0.9, 0.999]), rng.choice([1, 2]), rng.random()))
    return res


def c18(e, tier):
    rng0 = random.Random(SEED * 7919 + 18)

    def one(s):
        rng = random.Random(s)
        name = rng.choice(sorted(COMMANDS))
        with Scratch() as d:
            good = b'{"text": "a"}\n'
            n = rng.randint(1, 8)
            lines = [good] * n
            kind, at = rng.choice(["none", "json", "utf8", "type", "blank", "trunc"]), rng.randrange(n)
            bads = {"json": b'{"text": "a"\n', "utf8": b'{"text": "\xff"}\n', "type": b'{"text": 5}\n', "blank": b"\n"}
            if kind in bads:
                lines[at] = bads[kind]
            data = b"".join(lines)
            z = gzip.compress(data)
            if kind == "trunc":
                z = gzip.compress(data + os.urandom(0) + b'{"text": "%s"}\n' % bytes(rng.choice(b"abcdefgh ") for _ in range(400)))
                z = z[: rng.randint(11, len(z) - 1)]
            files = ["f0.json.gz"]
            open(os.path.join(d, files[0]), "wb").write(z)
            nf = rng.randint(0, 2)
            for i in range(nf):
                files.append("g%d.json.gz" % i)
                open(os.path.join(d, files[-1]), "wb").write(gzip.compress(good * 3))
            rng.shuffle(files)
            limit = None if kind == "trunc" else rng.choice([None, rng.randint(0, 9)])
            full = COMMANDS[name] + (["--limit", limit] if limit is not None else []) + ["-j", rng.choice([1, 2, 4])] + files
            what = "%r; f0 has %d lines, line %d is %s" % (full, n, at + 1, kind)
            rc, out, err = e.wimbd(full, d)
            bad = lambda m: Violation("%s: %s" % (m, what), keep_files(d), full)
            if rc is None:
                raise bad("does not terminate")
            fails = kind == "trunc" or (kind != "none" and (limit is None or at < limit))
            if fails and rc == 0:
                raise bad("succeeded with %r" % out)
            if fails and out.strip():
                raise bad("failed but printed %r" % out)
            if not fails:
                if rc != 0:
                    raise bad("failed: %s" % err.strip()[-300:])
                m = min(n, limit if limit is not None else n) + sum(min(3, limit if limit is not None else 3) for _ in range(nf))
                r = rows(out, what, full, keep_files(d))
                got = (r[0]["count"] if r else 0) if name in ("topk", "botk", "count", "search", "searchloc") else (r[0]["total_documents"] if name == "stats" else None)
                if got is not None and got != m:
                    raise bad("%r lines processed, expected %d" % (got, m))
                if name == "searchloc":
                    for f, ms in r[0]["matches"].items():
                        k = min(n if f == "f0.json.gz" else 3, limit if limit is not None else 99)
                        if [x["line_num"] for x in ms] != list(range(1, k + 1)):
                            raise bad("line numbers %s" % [x["line_num"] for x in ms])
                if name == "stats":
                    want = sum(len(x) for x in lines[: limit if limit is not None else n]) + nf * len(good) * min(3, limit if limit is not None else 3)
                    if r[0]["total_bytes"] != want:
                        raise bad("%d bytes, expected %d" % (r[0]["total_bytes"], want))
            e.rep.case(what)
    parallel(lambda x: large_round(e, x), large_specs(rng0, False))
    parallel(one, [rng0.random() for _ in range(4000 if DEEP else 600)])


def shim():
    so = os.path.join(CACHE, "shim_io.so")
    src = os.path.join(VERIF, "lib", "shim_io.c")
    if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
        tmp = so + ".%d" % os.getpid()
        r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", tmp, src, "-ldl", "-lpthread"], capture_output=True)
        if r.returncode:
            return None
        os.replace(tmp, so)
    return so


def c19(e, tier):
    rng0 = random.Random(SEED * 7919 + 19)
    so = shim()

    def one(s):
        rng = random.Random(s)
        name = rng.choice(sorted(COMMANDS))
        with Scratch() as d:
            nf = rng.randint(1, 6)
            files = ["f%d.json.gz" % i for i in range(nf)]
            body = b'{"text": "a b"}\n'
            for f in files:
                open(os.path.join(d, f), "wb").write(gzip.compress(body * rng.choice([0, 1, 3, 50])))
            kind = rng.choice(["none", "missing", "corrupt", "json", "dir", "eio", "empty"])
            victim = rng.choice(files)
            vp = os.path.join(d, victim)
            extra, pre = None, None
            fails = kind != "none"
            if kind == "missing":
                os.unlink(vp)
            elif kind == "corrupt":
                z = bytearray(gzip.compress(body * 30))
                z[len(z) // 2] ^= 0x55
                z[-6] ^= 0x55
                open(vp, "wb").write(bytes(z))
            elif kind == "json":
                open(vp, "wb").write(gzip.compress(body * rng.randint(0, 5) + b"{bad\n" + body * 2))
            elif kind == "dir":
                os.unlink(vp)
                os.mkdir(vp)
            elif kind == "empty":
                # not a gzip file: garbage
                open(vp, "wb").write(b"this is not gzip data at all........")
            elif kind == "eio":
                if not so:
                    return
                open(vp, "wb").write(gzip.compress(body * 50))
                extra = {"LD_PRELOAD": so, "SHIM_FILE": victim, "SHIM_FAILS": "1000", "SHIM_AFTER": str(rng.randint(0, 1))}
            o = None
            full = COMMANDS[name] + ["-j", rng.choice([1, 2, 8])]
            if name in OUTCMDS and rng.random() < 0.5:
                o = os.path.join(d, "out.jsonl")
                full = full + ["-o", o]
            full = full + files
            what = "%r; %s is %s" % (full, victim, kind)
            rc, out, err = e.wimbd(full, d, extra=extra, timeout=60)
            bad = lambda m: Violation("%s: %s" % (m, what), keep_files(d), full)
            if rc is None:
                raise bad("does not terminate")
            if fails:
                if rc == 0:
                    raise bad("succeeded although a file cannot be processed, printing %r" % out[:300])
                if out.strip():
                    raise bad("failed but printed %r" % out[:300])
                if o and os.path.exists(o) and open(o).read().strip():
                    raise bad("failed but wrote rows")
                if not err.strip():
                    raise bad("failed without an error message")
            elif rc != 0:
                raise bad("failed: %s" % err.strip()[-300:])
            e.rep.case(what)
    parallel(lambda x: large_round(e, x), large_specs(rng0, True) + large_specs(rng0, False))
    parallel(one, [rng0.random() for _ in range(3000 if DEEP else 500)])


def c20(e, tier):
    rng0 = random.Random(SEED * 7919 + 20)
    so = shim()
    if not so:
        raise Undecided("cannot build the read-fault shim")

    def one(s):
        rng = random.Random(s)
        with Scratch() as d:
            nf = rng.randint(1, 4)
            files = ["f%d.json.gz" % i for i in range(nf)]
            for f in files:
                lines = [b'{"text": "%s"}\n' % b" ".join(bytes([97 + rng.randrange(4)]) * rng.randint(1, 9) for _ in range(rng.randint(0, 12))) for _ in range(rng.choice([1, 5, 60, 300]))]
                open(os.path.join(d, f), "wb").write(gzip.compress(b"".join(lines), rng.choice([0, 1, 6])))
            victim = rng.choice(files)
            m, after = rng.randint(0, 4), rng.choice([0, 1, 2, 3, 5, 10])
            size = os.path.getsize(os.path.join(d, victim))
            reads = (size + 255) // 256
            will_fail = after <= reads  # the read that reports the end of the file fails, too
            log = os.path.join(d, "log")
            full = ["stats", "--json", "-q", "-j", rng.choice([1, 2, 4])] + files
            what = "%r; the first %d reads of %s (%d bytes) fail after %d reads" % (full, m, victim, size, after)
            ref = e.ok(full, d, what)
            rc, out, err = e.wimbd(full, d, extra={"LD_PRELOAD": so, "SHIM_FILE": victim, "SHIM_FAILS": str(m), "SHIM_AFTER": str(after), "SHIM_LOG": log})
            opens = len(open(log).read().splitlines()) if os.path.exists(log) else 0
            bad = lambda x: Violation("%s: %s" % (x, what), keep_files(d), full)
            if rc is None:
                raise bad("does not terminate")
            if opens > 3:
                raise bad("%d attempts" % opens)
            if rc == 0:
                def norm(t):
                    r = json.loads(t)
                    for k in ("max_token_documents", "min_token_documents"):
                        r[k] = sorted(json.dumps(x, sort_keys=True) for x in r[k])
                    return r
                if norm(out) != norm(ref):
                    raise bad("result %s, without failures %s" % (out, ref))
                if m > 2 and after <= 1:
                    raise bad("succeeded although every attempt failed")
            elif out.strip():
                raise bad("failed but printed %r" % out)
            if m <= 2 and rc != 0:
                raise bad("failed (status %s) although attempt %d succeeds: %s" % (rc, m + 1, err.strip()[-300:]))
            if opens and m == 0 and opens != 1:
                raise bad("%d attempts without a failure" % opens)
            if after == 0 and m <= 2 and opens != m + 1:
                raise bad("%d attempts" % opens)
            # commands without retries fail at once
            if m >= 1 and after == 0:
                name = rng.choice(["topk", "unique", "count", "search", "searchloc"])
                if os.path.exists(log):
                    os.unlink(log)
                full2 = COMMANDS[name] + files
                rc, out, err = e.wimbd(full2, d, extra={"LD_PRELOAD": so, "SHIM_FILE": victim, "SHIM_FAILS": str(m), "SHIM_AFTER": "0", "SHIM_LOG": log})
                opens = len(open(log).read().splitlines()) if os.path.exists(log) else 0
                if rc == 0 and opens <= m:
                    raise Violation("succeeded although every one of %d attempts failed: %s" % (opens, full2), keep_files(d), full2)
                if rc != 0 and out.strip():
                    raise Violation("failed but printed %r: %s" % (out, full2), keep_files(d), full2)
            e.rep.case(what, m > 0)
    parallel(one, [rng0.random() for _ in range(2500 if DEEP else 400)])


# ------------------------------------------------------------------------------ C21 schedules
def c21(e, tier):
    rng0 = random.Random(SEED * 7919 + 21)
    pins = [["taskset", "-c", "0"], [], ["taskset", "-c", "0,1"]] if shutil.which("taskset") else [[]]
    ncpu = os.cpu_count() or 1

    def one(s):
        rng = random.Random(s)
        with Scratch() as d:
            nf = rng.choice([1, 2, 3, 8, 20])
            c = Corpus(rng, nfiles=nf, ndocs=rng.choice([1, 3, 12]), vocab=["a", "b", "c"], odd=False)
            c.write(d)
            names = [f for f, _ in c.files]
            cmd = rng.choice(["search", "search", "topk", "botk"])
            pre = rng.choice([[], ["taskset", "-c", str(rng.randrange(ncpu))]]) if shutil.which("taskset") else []
            j = rng.choice([1, 2, 4, 8])
            if cmd == "search":
                full = ["search", "--json", "-q", "--with-locations", "-p", "a", "-p", "b c", "-j", j] + names
            else:
                full = [cmd, "--json", "-q", "-n", 2, "-k", rng.choice([3, 1000]), "-h", 5, "--size", "64KiB", "-j", j] + (["--threshold", 0] if cmd == "topk" else []) + names
            what = "%r; corpus %s" % (pre + full, c.desc()[:3000])
            out = e.ok(full, d, what, pre=pre, timeout=60)
            rs = rows(out, what, full, keep_files(d))
            bad = lambda m: Violation("%s: %s" % (m, what), keep_files(d), full)
            if cmd == "search":
                exp = expected_matches(c, ["a", "b c"], names, None, None)
                for r in rs:
                    got = {f: [(m["line_num"], m["text"], [(x["start_col"], x["end_col"]) for x in m["submatches"]]) for m in ms] for f, ms in r["matches"].items()}
                    if (r["count"], got) != exp[r["pattern"]]:
                        raise bad("%r: collected %s, expected %s" % (r["pattern"], got, exp[r["pattern"]]))
            else:
                true = gram_counts(c, 2)
                want = sorted(true.values(), reverse=cmd == "topk")[: full[full.index("-k") + 1]]
                got = [r["count"] for r in rs]
                # a 16384-cell table: collisions of all five cells are out of the question for nine ngrams
                if got != want or any(true.get(tuple(r["tokens"])) != r["count"] for r in rs):
                    raise bad("collected counts %s, expected %s" % (got, want))
            e.rep.case(what)
    parallel(one, [rng0.random() for _ in range(6000 if DEEP else 900)])

    # an early failure ends the command, too
    for name in ["topk", "botk", "searchloc"]:
        for nf in (1, 3):
            with Scratch() as d:
                fs = []
                for i in range(nf):
                    fs.append("f%d.json.gz" % i)
                    open(os.path.join(d, fs[-1]), "wb").write(gzip.compress(b'{"text":"a a"}\n' * 5 + (b"{\n" if i == 0 else b"")))
                full = COMMANDS[name] + fs
                rc, out, err = e.wimbd(full, d, timeout=30)
                if rc is None:
                    raise Violation("waits forever after a file failed: %r" % full, keep_files(d), full)
                e.rep.case("failing file %r" % full)


# ------------------------------------------------------------------------------ C22 / C23 output
def c22(e, tier):
    rng0 = random.Random(SEED * 7919 + 22)

    def one(s):
        rng = random.Random(s)
        name = rng.choice(OUTCMDS)
        with Scratch() as d:
            data = os.path.join(d, "in.json.gz")
            open(data, "wb").write(gzip.compress(b'{"text": "a b a"}\n' * rng.choice([1, 2, 20])))
            kind = rng.choice(["new", "nested", "exists", "force", "forcenew", "forceshort", "dir", "dirforce", "noext", "direxists"])
            dotted = rng.random() < 0.4
            old = b"OLD CONTENT\n" * rng.choice([1, 5, 400, 3000])
            ranked = name in ("topk", "botk")
            full = COMMANDS[name] + ["--limit", 100] if rng.random() < 0.3 else list(COMMANDS[name])
            full = full + (["--seed", 3] if ranked else [])
            dirarg = kind in ("dir", "dirforce", "noext", "direxists")
            target = os.path.join(d, "o.jsonl")
            arg = target
            if kind == "nested":
                arg = target = os.path.join(d, "x", "y.d", "o.jsonl")
            if kind in ("exists", "force"):
                open(target, "wb").write(old)
            if kind == "forceshort":
                open(target, "wb").write(b"x")
            if dirarg:
                dname = "outdir" if kind == "noext" or not dotted else rng.choice(["out.d", "v1.0", "a.jsonl"])
                arg = os.path.join(d, dname)
                if kind != "noext":
                    os.mkdir(arg)
            if kind in ("force", "forcenew", "dirforce", "forceshort"):
                full = full + ["--force"]
            cmd = full + ["-o", arg, "in.json.gz"]
            what = "%r (%s)" % (cmd, kind)
            bad = lambda m: Violation("%s: %s" % (m, what), keep_files(d), cmd)
            before = sorted(os.listdir(d))
            rc, out, err = e.wimbd(cmd, d)
            if rc is None:
                raise bad("does not terminate")
            if "panicked" in err:
                raise bad("panicked: %s" % err[-300:])
            if kind == "exists":
                if rc == 0 or open(target, "rb").read() != old or out.strip():
                    raise bad("an existing file without --force: status %s, printed %r, file now %r" % (rc, out[:100], open(target, "rb").read()[:100]))
            elif dirarg and not ranked:
                if kind == "noext":
                    if rc != 0 or open(arg).read() != out:
                        raise bad("status %s: %s" % (rc, err[-200:]))
                elif rc == 0 or os.listdir(arg):
                    raise bad("a directory was accepted as a file")
            else:
                if rc != 0:
                    raise bad("failed: %s" % err[-300:])
                if dirarg:
                    fs = os.listdir(arg)
                    if len(fs) != 1:
                        raise bad("files in the directory: %s" % fs)
                    target = os.path.join(arg, fs[0])
                    if sorted(os.listdir(d)) != sorted(set(before) | {dname}):
                        raise bad("wrote elsewhere: %s" % os.listdir(d))
                content = open(target).read()
                if content != out or not content:
                    raise bad("the file holds %r, the results are %r" % (content[:200], out[:200]))
                if kind in ("dir", "dirforce", "noext"):
                    # again, without and with --force
                    again = [x for x in cmd if x != "--force"]
                    rc2, out2, _ = e.wimbd(again, d)
                    if rc2 == 0 or open(target).read() != content or os.listdir(arg) != fs:
                        raise bad("a second run into the same directory without --force: status %s, files %s" % (rc2, os.listdir(arg)))
                    open(target, "ab").write(old)
                    rc3, out3, _ = e.wimbd(again[:-3] + ["--force"] + again[-3:], d)
                    if rc3 != 0 or open(target).read() != out3:
                        raise bad("overwriting in a directory: status %s" % rc3)
            # before processing: a bad input does not change the verdict about the file
            if kind == "exists":
                open(data, "wb").write(b"garbage")
                rc4, _, err4 = e.wimbd(cmd, d)
                if rc4 == 0 or open(target, "rb").read() != old:
                    raise bad("existing file changed by a failing run")
            e.rep.case(what)
    parallel(one, [rng0.random() for _ in range(3000 if DEEP else 500)])


def c23(e, tier):
    rng0 = random.Random(SEED * 7919 + 23)

    def norm(name, text):
        rs = [json.loads(l) for l in text.splitlines()]
        if name == "stats":
            for r in rs:
                for k in ("max_token_documents", "min_token_documents"):
                    r[k] = sorted(json.dumps(x, sort_keys=True) for x in r[k])
            return rs
        if name in ("count", "search", "searchloc"):
            return sorted(json.dumps(r, sort_keys=True) for r in rs)
        return [(r["rank"], r["count"], r["tokens"], r["string"]) for r in rs]

    def one(s):
        rng = random.Random(s)
        name = rng.choice(OUTCMDS)
        with Scratch() as d:
            c = Corpus(rng, nfiles=rng.randint(1, 3))
            c.write(d, rng)
            names = [f for f, _ in c.files]
            base = [x for x in COMMANDS[name] if x not in ("--json", "-q", "1000", "-k")] + ["-j", 1]
            if name in ("topk", "botk"):
                base += ["-k", rng.choice([1, 2, 5, 50]), "-h", 6, "--seed", 5]
            if name == "count":
                for w in WORDS[:rng.randint(1, 6)]:
                    base += ["-s", w, "-s", w + " a"]
            if name.startswith("search"):
                for w in ["b", "c", "fo+", "b a", "."][:rng.randint(1, 5)]:
                    base += ["-p", w]
            runs = {}
            what = "%r; corpus %s" % (base, c.desc())
            bad = lambda m, cmd: Violation("%s: %s" % (m, what), keep_files(d), cmd)
            for i, flags in enumerate([["--json"], ["--json", "-q"], ["-q"], []]):
                o = os.path.join(d, "o%d.jsonl" % i)
                cmd = base + flags + ["-o", o] + names
                out = e.ok(cmd, d, what)
                content = open(o).read()
                if content and not content.endswith("\n"):
                    raise bad("the file does not end in a newline: %r" % content[-80:], cmd)
                if "--json" in flags and out != content:
                    raise bad("JSON output %r, file %r" % (out[:300], content[:300]), cmd)
                try:
                    runs[i] = norm(name, content)
                except (ValueError, KeyError) as x:
                    raise bad("a line of the file is not a result: %s" % x, cmd)
                if len(content.splitlines()) != len(runs[i]):
                    raise bad("lines", cmd)
            if any(runs[i] != runs[0] for i in runs):
                raise bad("the file depends on quiet or format options: %s" % runs, base)
            # without a file: the same rows
            out = e.ok(base + ["--json"] + names, d, what)
            if norm(name, out) != runs[0]:
                raise bad("without an output file: %r" % out[:300], base)
            if name in ("count", "search", "searchloc") and len(runs[0]) != len(set(runs[0])):
                raise bad("a row is repeated", base)
            # human readable rows: as many, same counts
            if name in ("topk", "botk"):
                out = e.ok(base + names, d, what)
                txt = re.findall(r'^\[(\d+)/(\d+)\] "(.*)" \(count (?:≤|=) (\d+)\)$', out, re.M)
                if [(int(a), int(n), t) for a, _, t, n in txt] != [(r[0], r[1], r[3]) for r in runs[0]]:
                    raise bad("printed rows %s" % txt, base)
            elif name == "count":
                out = e.ok(base + names, d, what)
                txt = re.findall(r'^\[(\d+)/(\d+)\] "(.*)" \(count = (\d+)\)$', out, re.M)
                if sorted((t, int(n)) for _, _, t, n in txt) != sorted((json.loads(r)["string"], json.loads(r)["count"]) for r in runs[0]):
                    raise bad("printed rows %s" % txt, base)
            e.rep.case(what, len(runs[0]) > 1 or name == "stats")
    parallel(one, [rng0.random() for _ in range(1500 if DEEP else 220)])


# ------------------------------------------------------------------------------ C24 paths
def c24(e, tier):
    rng0 = random.Random(SEED * 7919 + 24)
    DIRS = ["d", "[a]", "x*y", "q?z", "sp ace", "é", "{b}", "!n", ".hid", "a]b", "[!c]"]
    NAMES = ["a.json.gz", "b.jsonl.gz", "c.json.1.gz", "é.json.gz", ".h.json.gz", "[x].json.gz", "d.gz", "e.json", "f.json.gz.bak", "k.txt.gz"]
    match = lambda n: n.endswith(".gz") and ".json" in n[:-3]

    def one(s):
        rng = random.Random(s)
        with Scratch() as d:
            args, order, err = [], [], False
            uid = 0
            for a in range(rng.randint(1, 3)):
                if rng.random() < 0.3:
                    n = rng.choice(["plain%d.dat", "p%d.json.gz", "[p%d].json.gz"]) % a
                    uid += 1
                    open(os.path.join(d, n), "wb").write(gzip.compress(b'{"text": "w%d"}\n' % uid))
                    args.append(n)
                    order.append({n})
                    continue
                top = "%d%s" % (a, rng.choice(DIRS))
                ds = [top]
                os.mkdir(os.path.join(d, top))
                for _ in range(rng.randint(0, 3)):
                    x = os.path.join(rng.choice(ds), rng.choice(DIRS))
                    os.makedirs(os.path.join(d, x), exist_ok=True)
                    ds.append(x)
                want = set()
                for _ in range(rng.randint(0, 6)):
                    n = rng.choice(NAMES)
                    p = os.path.join(rng.choice(ds), n)
                    uid += 1
                    open(os.path.join(d, p), "wb").write(gzip.compress(b'{"text": "w%d"}\n' % uid) if match(n) else b"junk")
                    if match(n):
                        want.add(p)
                if not want:
                    err = True
                args.append(rng.choice(["", "./"]) + top + rng.choice(["", "/"]))
                order.append(want)
            full = ["stats", "--json", "-q"] + args
            what = "%r; files %s" % (full, order)
            bad = lambda m: Violation("%s: %s" % (m, what), keep_files(d), full)
            rc, out, errt = e.wimbd(full, d)
            if err:
                if rc == 0:
                    raise bad("a directory without data files is accepted")
            else:
                if rc != 0:
                    raise bad("failed: %s" % errt[-300:])
                r = json.loads(out)
                got = sorted(os.path.normpath(x["path"]) for x in r["max_token_documents"])
                if got != sorted(p for g in order for p in g) or r["total_documents"] != len(got):
                    raise bad("processed %s" % got)
                for x in r["max_token_documents"]:
                    if os.path.normpath(x["path"]) in args and x["path"] not in args:
                        raise bad("path changed to %s" % x["path"])
                # order: the first file belongs to the first argument
                k = len(order[0])
                rc, out, errt = e.wimbd(full + ["--file-limit", k], d)
                got = {os.path.normpath(x["path"]) for x in json.loads(out)["max_token_documents"]} if rc == 0 else None
                if got != order[0]:
                    raise bad("the first %d files are %s" % (k, got))
            e.rep.case(what, any(len(g) > 1 for g in order))
    parallel(one, [rng0.random() for _ in range(1500 if DEEP else 220)])


# ------------------------------------------------------------------------------ C25 sizes
def c25(e, tier):
    """table sizes seen through `unique`: a saturated tiny table reports exactly its size"""
    with Scratch() as d:
        words = " ".join("w%d" % i for i in range(6000))
        open(os.path.join(d, "f.json.gz"), "wb").write(gzip.compress((json.dumps({"text": words}) + "\n").encode()))

        def uniq(size, h=20):
            rc, out, err = e.wimbd(["unique", "--json", "-q", "-n", "1", "-h", h, "--seed", 9, "--size", size, "f.json.gz"], d, timeout=60)
            return json.loads(out)["unique_count"] if rc == 0 else None
        for s, want in [("100B", 100), ("1B", 1), ("1KiB", 1024), ("1KB", 1000), ("2KiB", 2048), ("2 KB", 2000), ("0.000001GiB", uniq("0.000001")), ("0.0000005", None)]:
            if want is None:
                continue
            got = uniq(s)
            e.rep.case("--size %s -> %s cells" % (s, got))
            if got != want:
                raise Violation("a table of size %r has %s cells, expected %s" % (s, got, want), {}, ["unique", "--size", s])
        # plain numbers are GiB
        for a, b, c in [("0.0001", "0.0001GiB", "0.0001GB"), ("1MiB", "1048576B", "1MB"), ("0.001", "0.001GiB", "0.001GB"), ("0.5MiB", "524288B", "0.5MB")]:
            x, y, z = uniq(a, 8), uniq(b, 8), uniq(c, 8)
            e.rep.case("--size %s = %s" % (a, b))
            if x != y or x is None or x == z:
                raise Violation("--size %s gives %s, %s gives %s, %s gives %s" % (a, x, b, y, c, z), {}, ["unique", "--size", a])
        # topk and botk divide the bytes by the cell size: the smallest table that works
        for cmd, ok, bad in [(["topk", "--threshold", "0"], "4B", "3B"), (["topk", "--threshold", "0", "--u64"], "8B", "7B"), (["botk"], "4B", "3B")]:
            for s, good in ((ok, True), (bad, False)):
                rc, out, err = e.wimbd(cmd + ["--json", "-q", "-n", 1, "--size", s, "f.json.gz"], d)
                e.rep.case("%r --size %s" % (cmd, s))
                if (rc == 0) != good or "panicked" in err:
                    raise Violation("%r --size %s: status %s %s" % (cmd, s, rc, err[-200:]), {}, cmd + ["--size", s])
        for s in ["-1", "", "abc", "1..5", "1XB", "99999999999GiB", "--", "-5MiB", "1e400", "5 %"]:
            for cmd in ("unique", "topk", "botk"):
                rc, out, err = e.wimbd([cmd, "--json", "-q", "-n", 1, "--size=" + s, "f.json.gz"], d)
                e.rep.case("%s --size=%s" % (cmd, s))
                if rc is None or rc <= 0 or "panicked" in err:
                    raise Violation("size %r is accepted by %s (status %s)" % (s, cmd, rc), {}, [cmd, "--size=" + s])


# ------------------------------------------------------------------------------ C26 arguments
def c26(e, tier):
    with Scratch() as d:
        open(os.path.join(d, "f.json.gz"), "wb").write(gzip.compress(b'{"text": "a b a b c"}\n{"text": null}\n{}\n' * 3))
        open(os.path.join(d, "empty.json.gz"), "wb").write(gzip.compress(b""))
        big = str(2 ** 64 - 1)
        sz = ["--size", "4KiB"]
        bads, goods = [], []
        for c in ("topk", "botk", "unique"):
            for b in (["-n", 0], ["-h", 0], ["--size", "0"], ["--size", "0B"], ["-n", "-1"], ["-h", 256], ["-n", big + "0"], ["--seed", "-1"], ["--limit", "-1"], ["-j", "x"]):
                bads.append(([c] + ([] if "--size" in b else sz) + b, ["f.json.gz"]))
            bads.append(([c] + sz, []))
            for b in (["-n", 1], ["-n", 5], ["-n", 6], ["-n", big], ["-h", 255], ["-j", 0], ["-j", 100], ["-j", 1], ["--limit", 0], ["--limit", big], ["--file-limit", big], ["--seed", big], ["--seed", 0]):
                goods.append(([c] + sz + b, ["f.json.gz"]))
            goods.append(([c, "-j", 8] + sz, ["f.json.gz", "empty.json.gz", "f.json.gz"]))
            goods.append(([c] + sz, ["empty.json.gz"]))
            goods.append(([c, "--size", "4B" if c != "unique" else "1B"], ["f.json.gz"]))
        for c in ("topk", "botk"):
            bads += [([c, "-k", 0] + sz, ["f.json.gz"]), ([c, "--size", "3B"], ["f.json.gz"]), ([c, "--threshold", "-1"] + sz, ["f.json.gz"]), ([c, "--threshold", 2 ** 32] + sz, ["f.json.gz"])]
            goods += [([c, "-k", x] + sz, ["f.json.gz"]) for x in (1, 10 ** 6, 10 ** 15, big, str(2 ** 64 - 2))]
            goods += [([c, "--threshold", x] + sz, ["f.json.gz"]) for x in (0, 1, 2 ** 31, 2 ** 32 - 1)]
            goods += [([c, "-n", 2, "-k", 3, "--threshold", 0, "-j", 0] + sz, ["f.json.gz", "f.json.gz"])]
        bads.append((["topk", "--u64", "--size", "7B"], ["f.json.gz"]))
        goods.append((["topk", "--u64", "--size", "8B", "--threshold", 2 ** 32 - 1], ["f.json.gz"]))
        for p in ("0", "-0.5", "1.0001", "2", "nan", "NaN", "inf", "-inf", "x"):
            bads.append((["botk", "--p-keep=" + p] + sz, ["f.json.gz"]))
        for p in ("1", "1.0", "0.5", "0.0001"):
            goods.append((["botk", "--p-keep=" + p] + sz, ["f.json.gz"]))
        bads += [(["count"], ["f.json.gz"]), (["count", "-s", "a"], []), (["count", "-s", "a", "--file-limit", 0], ["f.json.gz"]),
                 (["search"], ["f.json.gz"]), (["search", "-p", "a"], []), (["search", "-p", "a", "--file-limit", 0], ["f.json.gz"]),
                 (["search", "-p", "("], ["f.json.gz"]), (["search", "-p", "a", "-p", "[z"], ["f.json.gz"]),
                 (["search", "-p", "a", "--locations-limit", 3], ["f.json.gz"]), (["search", "-p", "a", "--locations-limit", 0], ["f.json.gz"]), (["stats"], [])]
        goods += [(["count", "-s", ""], ["f.json.gz"]), (["count", "-s", " "], ["f.json.gz"]), (["count", "-s", "a", "-s", "", "-s", "a b c d e f g"], ["f.json.gz", "empty.json.gz"]),
                  (["search", "-p", ""], ["f.json.gz"]), (["search", "-p", "", "--with-locations"], ["f.json.gz"]), (["search", "-p", "a", "--with-locations", "--locations-limit", 0], ["f.json.gz"]),
                  (["search", "-p", "a", "--with-locations", "--locations-limit", big], ["f.json.gz", "f.json.gz"]), (["stats"], ["empty.json.gz"]), (["stats", "-j", 0], ["f.json.gz"])]
        for c in (["count", "-s", "a"], ["search", "-p", "a"], ["search", "-p", "a", "--with-locations"], ["stats"]):
            for b in (["-j", 0], ["-j", 1], ["-j", 500], ["--limit", 0], ["--limit", big], ["--file-limit", 1], ["--file-limit", big], ["--json"], ["-q"]):
                goods.append((c + b, ["f.json.gz", "empty.json.gz"]))

        def one(x):
            (args, files), good = x
            full = args + files
            rc, out, err = e.wimbd(full, d, timeout=60)
            what = " ".join(map(str, full))
            bad = lambda m: Violation("%s: %s" % (m, what), keep_files(d), full)
            if rc is None:
                raise bad("does not terminate")
            if "panicked" in err or rc in (101, 134) or rc < 0:
                raise bad("panics (status %s): %s" % (rc, err[-300:]))
            if good and rc != 0:
                raise bad("accepted arguments fail: %s" % err[-300:])
            if not good:
                if rc == 0:
                    raise bad("bad arguments are accepted, printing %r" % out[:200])
                if out.strip() or "Processed" in err:
                    raise bad("bad arguments are only noticed after processing")
            e.rep.case(what)
        parallel(one, [(b, False) for b in bads] + [(g, True) for g in goods])
        # every count of workers processes everything
        for c in ("count", "topk"):
            for j in range(0, 10):
                for nf in (1, 2, 5):
                    base = ["count", "-s", "a"] if c == "count" else ["topk", "-n", 1, "--threshold", 0, "--size", "64KiB", "-k", 1]
                    full = base + ["--json", "-q", "-j", j] + ["f.json.gz"] * nf
                    rc, out, err = e.wimbd(full, d)
                    got = json.loads(out.splitlines()[0])["count"] if rc == 0 and out.strip() else None
                    e.rep.case("%s workers=%d files=%d" % (c, j, nf))
                    if got != 6 * nf:
                        raise Violation("%d workers, %d files: counted %s, expected %d" % (j, nf, got, 6 * nf), keep_files(d), full)


# ------------------------------------------------------------------------------ C04 through the command line
def c04(e, tier):
    rng = random.Random(SEED * 7919 + 4)
    for _ in range(60 if DEEP else 12):
        with Scratch() as d:
            c = Corpus(rng, nfiles=3, ndocs=20, vocab=WORDS)
            c.write(d, rng)
            seed = rng.choice([0, 1, 42, 2 ** 64 - 1, 2 ** 64 - 3, rng.randrange(2 ** 64)])
            names = [f for f, _ in c.files]
            for cmd in (["unique", "--size", "50B"], ["unique", "--size", "1000B"], ["topk", "--size", "200B", "-k", 50, "-j", 1], ["topk", "--u64", "--size", "400B", "-k", 50, "-j", 1], ["botk", "--size", "200B", "-k", 50, "-j", 1]):
                full = [cmd[0], "--json", "-q", "-n", 2, "-h", 3, "--seed", seed] + cmd[1:] + names
                what = "%r; corpus %s" % (full, c.desc()[:2000])
                outs = {e.ok(full, d, what) for _ in range(3)}
                e.rep.case(what)
                if len(outs) != 1:
                    raise Violation("three runs with one seed give %d results: %s" % (len(outs), what), keep_files(d), full)


CLI = dict(C04=c04, C10=c10, C11=c11, C12=c12, C13=c13, C14=c14, C15=c15, C16=c16, C17=c17, C18=c18, C19=c19, C20=c20, C21=c21, C22=c22, C23=c23, C24=c24, C25=c25, C26=c26)
