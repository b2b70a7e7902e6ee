"""es_driver.py CHECK SEED N: the functions of wimbd.es against a recording stand-in for the client."""
import copy, json, os, random, re, signal, sys, traceback
CHECK, SEED, N = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
res = dict(evaluations=0, distinct=0, samples=[], violation=None)


class Bad(Exception):
    pass


try:
    import importlib.util
    import wimbd.es as W
    from elasticsearch.exceptions import NotFoundError
except BaseException as e:
    print(json.dumps(dict(undecided="wimbd.es cannot be imported: %r" % e)))
    sys.exit(0)


# ---- what a query means, on documents {"text": [tokens], field: value}
def has_phrase(text, phrase, slop):
    p = phrase.split()
    if not p:
        return False
    return any(text[i:i + len(p)] == p for i in range(len(text) - len(p) + 1))


def listed(x):
    return x if isinstance(x, list) else [x]


def ev(q, doc):
    if not isinstance(q, dict) or len(q) != 1:
        raise Bad("not a query: %r" % (q,))
    k, v = list(q.items())[0]
    if k == "bool":
        for x in ("must", "filter"):
            if not all(ev(y, doc) for y in listed(v.get(x) or [])):
                return False
        if any(ev(y, doc) for y in listed(v.get("must_not") or [])):
            return False
        sh = v.get("should")
        if sh is not None:
            m = v.get("minimum_should_match")
            if m is None:
                m = 0 if (v.get("must") or v.get("filter")) else 1
            if sum(ev(y, doc) for y in listed(sh)) < int(m):
                return False
        return True
    if k == "match_phrase":
        (f, x), = v.items()
        return has_phrase(doc[f], x if isinstance(x, str) else x["query"], 0)
    if k == "regexp":
        (f, x), = v.items()
        return any(re.fullmatch(x["value"] if isinstance(x, dict) else x, t, re.I) for t in doc[f])
    if k == "term":
        (f, x), = v.items()
        return doc.get(f) == (x["value"] if isinstance(x, dict) else x)
    if k == "match":
        (f, x), = v.items()
        return x in doc[f]
    raise Bad("unknown clause %r" % k)


def clauses(q, kind, out=None):
    out = [] if out is None else out
    if isinstance(q, dict):
        for k, v in q.items():
            if k == kind:
                out.append(v)
            clauses(v, kind, out)
    elif isinstance(q, list):
        for x in q:
            clauses(x, kind, out)
    return out


def phrase_list(q):
    out = []
    for v in clauses(q, "match_phrase"):
        for x in v.values():
            out.append(x if isinstance(x, str) else x["query"])
    for v in clauses(q, "regexp"):
        for x in v.values():
            out.append(x if isinstance(x, str) else x["value"])
    return out


VOC = ["a", "b", "c", "legal", "é", "A", "Legal", "x.y"]
RX = ["a", "legal", "A.*", "[ab]", r"\S+", r"\W+", r"\D", "Legal|b", "le[^G]al", "LEGAL", ".", "x\\.y", " a", "a "]
FIELDS = {"subset": ["en", "fr"], "source": ["s1", "s2"], "lang": ["x", "y"]}


def rdoc(rng):
    d = {"text": [rng.choice(VOC) for _ in range(rng.randint(0, 6))]}
    for f, v in FIELDS.items():
        d[f] = rng.choice(v)
    return d


def rphrase(rng):
    p = " ".join(rng.choice(VOC) for _ in range(rng.choice([1, 1, 1, 2, 3])))
    return p if rng.random() < .9 else rng.choice([" %s", "%s ", "%s\n", "  %s  "]) % p


def rfilter(rng):
    r = rng.random()
    if r < .3:
        return None
    if r < .4:
        return []
    return [{f: rng.choice(FIELDS[f])} for f in rng.sample(sorted(FIELDS), rng.randint(1, 3))]


def frozen(x):
    return json.dumps(x, sort_keys=True, default=str)


class Client:
    """records requests; answers from `docs`"""

    def __init__(self, docs, rng):
        self.docs, self.rng, self.log = docs, rng, []

    def rec(self, kind, kw):
        self.log.append((kind, copy.deepcopy(kw)))

    def count(self, **kw):
        self.rec("count", kw)
        n = sum(ev(kw["query"], d) for d in self.docs)
        if self.rng.random() < .1:
            kw["query"].setdefault("touched", 1)  # the client may use the dict as it likes
        return {"count": n, "_shards": {}}

    def msearch(self, **kw):
        self.rec("msearch", kw)
        s = kw["searches"]
        if len(s) % 2:
            raise Bad("odd number of search lines")
        out = []
        for h, b in zip(s[::2], s[1::2]):
            n = sum(ev(b["query"], d) for d in self.docs)
            out.append({"hits": {"total": n, "hits": []}})
        return {"responses": out}


def filters_of(index, flt):
    return list(flt or []) + ([{"subset": "en"}] if index == "c4" else [])


def matches(doc, phrases, allp, flts):
    f = all if allp else any
    return f(has_phrase(doc["text"], p, 0) for p in phrases) and all(doc.get(k) == v for x in flts for k, v in x.items())


def c34(rng):
    docs = [rdoc(rng) for _ in range(rng.choice([1, 5, 30]))]
    c = Client(docs, rng)
    index = rng.choice(["c4", "re-pajama", "x"])
    allp = rng.random() < .3
    bs = rng.choice([1, 2, 3, 5, 10, 500])
    n = rng.choice([1, 2, bs - 1, bs, bs + 1, 2 * bs, 2 * bs + 1, 7, 30])
    n = max(1, min(n, 60))
    phrases = [[rphrase(rng) for _ in range(rng.randint(1, 3))] for _ in range(n)] if allp else [rphrase(rng) for _ in range(n)]
    if not allp and rng.random() < .15:
        phrases = rphrase(rng)
    if isinstance(phrases, list) and rng.random() < .1:
        phrases = tuple(phrases)
    flt = rfilter(rng)
    args = dict(index=index, phrases=phrases, all_phrases=allp, subset_filter=flt)
    if bs != 500 or rng.random() < .5:
        args["batch_size"] = bs
    what = frozen(args)
    before = frozen((phrases, flt))
    got = W.count_documents_for_each_phrase(es=c, **args)
    if frozen((phrases, flt)) != before:
        raise Bad("the arguments were changed to %s: %s" % (frozen((phrases, flt)), what))
    lst = [phrases] if isinstance(phrases, str) else phrases
    fl = filters_of(index, flt)
    want = [sum(matches(d, listed(p), True, fl) for d in docs) for p in lst]
    if list(got) != want:
        raise Bad("counts %r, expected %r: %s" % (got, want, what))
    sent = []
    for k, kw in c.log:
        if k != "msearch":
            continue
        s = kw["searches"]
        if len(s) // 2 > bs:
            raise Bad("a request with %d queries, the batch size is %d: %s" % (len(s) // 2, bs, what))
        if not s:
            raise Bad("an empty request: %s" % what)
        for h, b in zip(s[::2], s[1::2]):
            if (h.get("index") or kw.get("index")) != index:
                raise Bad("a query for index %r: %s" % (h.get("index"), what))
            sent.append(phrase_list(b["query"]))
            terms = clauses(b["query"], "term")
            for f in fl:
                if f not in terms:
                    raise Bad("the query for %r lacks the filter %r: %s" % (sent[-1], f, what))
    if [sorted(x) for x in sent] != [sorted(listed(p)) for p in lst]:
        raise Bad("queries sent for %r: %s" % (sent[:40], what))
    return what, n > 1


def c35(rng):
    docs = [rdoc(rng) for _ in range(20)]
    index = rng.choice(["c4", "c4", "re-pajama", "test"])
    allp = rng.random() < .5
    rx = rng.random() < .3
    phrases = [rng.choice(RX) if rx else rphrase(rng) for _ in range(rng.randint(1, 4))]
    if rng.random() < .2:
        phrases = phrases[0]
    slop = rng.choice([0, 0, 1, 5])
    flt = rfilter(rng)
    lst = [phrases] if isinstance(phrases, str) else list(phrases)
    fl = filters_of(index, flt)
    args = dict(index=index, phrases=phrases, all_phrases=allp, is_regexp=rx, slop=slop, subset_filter=flt)
    what = frozen(args)
    before = frozen((phrases, flt))
    queries = []
    for r in range(rng.choice([2, 3])):
        kind = rng.choice(["count", "get", "getall"])
        c = Client(docs, rng)
        if kind == "count":
            got = W.count_documents_containing_phrases(es=c, **args)
            q = [kw for k, kw in c.log if k == "count"]
        else:
            s = Pages(rng, [[{"_id": "1", "sort": [1]}], []])
            c = s
            list(W.get_documents_containing_phrases(es=s, return_all_hits=kind == "getall", num_documents=10, **args))
            q = [kw for k, kw in s.log if k == "search"]
        if frozen((phrases, flt)) != before:
            raise Bad("the arguments were changed to %s: %s" % (frozen((phrases, flt)), what))
        if not q:
            raise Bad("no request was sent: %s" % what)
        for kw in q:
            if kw.get("index") != index:
                raise Bad("the request goes to index %r: %s" % (kw.get("index"), what))
            query = kw["query"]
            queries.append(query)
            if sorted(phrase_list(query)) != sorted(lst):
                raise Bad("the query asks for %r: %s" % (phrase_list(query), what))
            if bool(clauses(query, "regexp")) != rx:
                raise Bad("regular expressions and phrases are mixed up: %s" % what)
            for v in clauses(query, "match_phrase"):
                for x in v.values():
                    if (0 if isinstance(x, str) else x.get("slop", 0)) != slop:
                        raise Bad("slop %r instead of %d: %s" % (x, slop, what))
            terms = clauses(query, "term")
            for f in fl:
                if f not in terms:
                    raise Bad("the query lacks the filter %r: %s; query %s" % (f, what, frozen(query)))
            if len(terms) != len(fl):
                raise Bad("the query has filters %r, expected %r: %s" % (terms, fl, what))
            for d in docs:
                m = matches(d, lst, allp, fl) if not rx else (all if allp else any)(any(re.fullmatch(p, t, re.I) for t in d["text"]) for p in lst) and all(d.get(k) == v for x in fl for k, v in x.items())
                if ev(query, d) != m:
                    raise Bad("the query %s %s a document %r that should%s match: %s" % (frozen(query), "accepts" if not m else "rejects", d, "" if m else " not", what))
        if kind == "count" and got != sum(ev(query, d) for d in docs):
            raise Bad("the count is not the one the client returned: %s" % what)
    if len({frozen(q) for q in queries}) != 1:
        raise Bad("repeated calls send different queries %r: %s" % (queries, what))
    return what, True


class Pages:
    """hits in pages of the given sizes; every request is checked"""

    def __init__(self, rng, pages):
        self.rng, self.pages, self.log, self.closed, self.at = rng, pages, [], 0, 0
        self.all = [h for p in pages for h in p]
        self.done = False

    def open_point_in_time(self, **kw):
        return {"id": "pit"}

    def close_point_in_time(self, **kw):
        self.closed += 1
        if self.rng.random() < .3:
            raise NotFoundError("gone")
        return {}

    def search(self, **kw):
        self.log.append(("search", copy.deepcopy(kw)))
        if self.done:
            raise Bad("a request after the first empty page")
        after = kw.get("search_after")
        i = 0
        if after is not None:
            i = None
            for j, h in enumerate(self.all):
                if h["sort"] == after:
                    i = j + 1
            if i is None:
                raise Bad("search_after %r is no hit's sort value" % (after,))
        size = 10 if kw.get("size") is None else kw["size"]
        if after is None and self.at or after is not None and i != self.at:
            # not the continuation: answer honestly
            page = self.all[i:i + size]
        else:
            k = min(size, len(self.all) - self.at)
            if k > 1 and self.rng.random() < .3:
                k = self.rng.randint(1, k)  # a short page in the middle
            page = self.all[self.at:self.at + k]
            self.at += k
        if not page:
            self.done = True
        return {"hits": {"hits": copy.deepcopy(page), "total": {"value": len(self.all)}}}


def c36(rng):
    n = rng.choice([0, 1, 2, 3, 5, 9, 10, 11, 20, 21, 60])
    hits = [{"_id": "h%d" % i, "sort": ["d%d" % (i // 1), i], "_source": {"text": "t%d" % (i % 3)}} for i in range(n)]
    size = rng.choice([1, 2, 3, 5, 10, 50])
    alln = rng.random() < .7
    s = Pages(rng, [hits])
    args = dict(index=rng.choice(["c4", "x"]), phrases=["a"], num_documents=size, return_all_hits=alln)
    if rng.random() < .3:
        args["sort_field"] = rng.choice(["date", "created"])
    if size == 10 and rng.random() < .5:
        del args["num_documents"]
    what = "%s over %d hits" % (frozen(args), n)
    gen = W.get_documents_containing_phrases(es=s, **args)
    got = []
    for h in gen:
        got.append(h)
        if len(got) > 3 * n + 5:
            raise Bad("more than %d hits are yielded for %d: %s" % (len(got) - 1, n, what))
    if alln:
        if [h["_id"] for h in got] != [h["_id"] for h in hits]:
            raise Bad("yields %r: %s" % ([h["_id"] for h in got][:70], what))
        prev = None
        for k, kw in s.log:
            x = dict(kw)
            x.pop("search_after", None)
            if prev is not None and frozen(x) != prev:
                raise Bad("a later page is asked for with %s, the first with %s: %s" % (frozen(x), prev, what))
            prev = frozen(x)
            if kw.get("size") != size:
                raise Bad("pages of size %r are asked for: %s" % (kw.get("size"), what))
            sort = kw.get("sort")
            if not sort or args.get("sort_field", "date") not in json.dumps(sort):
                raise Bad("the pages are not sorted by the sort field: %r: %s" % (sort, what))
        if not s.done:
            raise Bad("stopped before an empty page: %s" % what)
    else:
        if len(s.log) != 1:
            raise Bad("%d requests: %s" % (len(s.log), what))
        if s.log[0][1].get("size") != size:
            raise Bad("a request of size %r: %s" % (s.log[0][1].get("size"), what))
        want = [h["_id"] for h in hits[:s.at]]
        if [h["_id"] for h in got] != want:
            raise Bad("yields %r, the request returned %r: %s" % ([h["_id"] for h in got], want, what))
    return what, n > 0


class TO(Exception):
    pass


def alarm(*a):
    raise TO()


signal.signal(signal.SIGALRM, alarm)
rng = random.Random(SEED)
seen = set()
fn = dict(C34=c34, C35=c35, C36=c36)[CHECK]
for _ in range(N):
    try:
        signal.alarm(20)
        w, nt = fn(random.Random(rng.random()))
        signal.alarm(0)
    except Bad as b:
        res["violation"] = str(b)
        break
    except TO:
        res["violation"] = "does not terminate"
        break
    except (ImportError, AttributeError) as e:
        tb = traceback.format_exc()
        if "Client' object has no attribute" in tb or "Pages' object has no attribute" in tb or isinstance(e, ImportError) or "wimbd.es' has no attribute" in tb:
            print(json.dumps(dict(undecided="the stand-in client lacks something: %r" % e)))
            sys.exit(0)
        res["violation"] = "fails: " + tb[-900:]
        break
    except Exception:
        res["violation"] = "fails: " + traceback.format_exc()[-900:]
        break
    res["evaluations"] += 1
    if nt and w not in seen:
        seen.add(w)
        if len(res["samples"]) < 3:
            res["samples"].append(w[:500])
res["distinct"] = len(seen)
signal.alarm(0)
print(json.dumps(res))
