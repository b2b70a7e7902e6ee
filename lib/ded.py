"""Deductive layer: extract the bodies from /repo's current source, let Verus discharge every obligation.

For one property: every unit whose template has a `//@claims <ID>: f g ...` line is generated from the
current source and verified.  The property is `proved` when every claimed function is verified and no
proof relied on a function that was left out; `failed` when Verus rejects an obligation of a claimed
function (and the failing clause is not tagged for other properties only); `undecided` otherwise."""
import json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
from base import *

CONTRACTS = os.path.join(VERIF, "contracts")
PYVX = os.path.join(VERIF, "tools", "pyvx", "pyvx.py")
VX = os.path.join(CACHE, "vx", "release", "vx")
CTR = [("u8", dict(INT="u8", ATOMIC="AtomicU8")), ("u32", dict(INT="u32", ATOMIC="AtomicU32")),
       ("u64", dict(INT="u64", ATOMIC="AtomicU64"))]
VARIANTS = {}  # unit -> [(name, defs)]; filled from the templates' `//@variant NAME K=V ...` lines


def build_vx():
    d = os.path.join(VERIF, "tools", "vx")
    t = os.path.join(CACHE, "vx")
    os.makedirs(t, exist_ok=True)
    with open(os.path.join(t, ".lockf"), "w") as lf:
        fcntl.flock(lf, fcntl.LOCK_EX)
        stamp, want = os.path.join(t, ".stamp"), tree_hash([d + "/src", d + "/Cargo.toml"])
        if os.path.exists(VX) and os.path.exists(stamp) and open(stamp).read() == want:
            return True, ""
        r = subprocess.run(["cargo", "build", "--offline", "--release", "--target-dir", t], cwd=d, env=env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            open(stamp, "w").write(want)
        return r.returncode == 0, r.stdout


def expand(path):
    out = []
    for l in open(path):
        m = re.match(r"\s*//@include (\S+)", l)
        out += expand(os.path.join(os.path.dirname(path), m.group(1))) if m else [l]
    return out


def units():
    """unit -> dict(claims={ID: set(functions)}, variants=[(name, defs)])"""
    res = {}
    for f in sorted(os.listdir(CONTRACTS)):
        if not f.endswith(".rs") or f.startswith("shim_") or f.endswith("_lemmas.rs"):
            continue
        claims, variants = {}, []
        for l in expand(os.path.join(CONTRACTS, f)):
            m = re.match(r"\s*//@claims (C\d+):\s*(.*)", l)
            if m:
                claims.setdefault(m.group(1), []).extend(m.group(2).split())
            m = re.match(r"\s*//@variant (\S+)\s*(.*)", l)
            if m:
                variants.append((m.group(1), dict(x.split("=", 1) for x in m.group(2).split())))
        if claims:
            res[f[:-3]] = dict(claims=claims, variants=variants or [("", {})])
    return res


class UnitRun:
    """one generated file, verified"""

    def __init__(self, unit, vname, defs, work):
        self.unit, self.vname, self.defs, self.work = unit, vname, defs, work
        self.name = re.sub(r"\W", "_", "%s_%s" % (unit, vname) if vname else unit)
        self.funcs = {}      # name -> success
        self.errors = []     # dict(function, message, clause, line, src, tags, rendered)
        self.bodies = []
        self.problem = None  # the whole unit could not be decided
        self.skipped = {}    # body index -> reason
        self.cmds = []
        self.smt_ms = 0
        self.vacuous = None
        self.trusted = []
        self.deadline = time.time() + 600   # a check has 900 s

    def gen(self, probe=False):
        out = os.path.join(self.work, self.name + ("_probe" if probe else "") + ".rs")
        rep = out + ".json"
        tool = [sys.executable, PYVX] if self.unit.startswith("py_") else [VX]
        cmd = tool + [os.path.join(CONTRACTS, self.unit + ".rs"), REPO, out, rep]
        for k, v in self.defs.items():
            cmd += ["-D", "%s=%s" % (k, v)]
        if self.skipped:
            cmd += ["--skip", ",".join(map(str, sorted(self.skipped)))]
        if probe:
            cmd += ["--probe"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            self.problem = "extraction failed: " + r.stdout[-400:]
            return None, None
        d = json.load(open(rep))
        return out, d

    def verus(self, path, extra=(), timeout=400, errors=6):
        timeout = max(5, min(timeout, self.deadline - time.time()))
        cmd = ["verus", os.path.basename(path), "--output-json", "--time-expanded", "--error-format=json",
               "--multiple-errors", str(errors), "--num-threads", "2"] + list(extra)
        self.cmds.append(" ".join(cmd))
        try:
            r = subprocess.run(cmd, cwd=self.work, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            return None, []
        try:
            js = json.loads(r.stdout)
        except ValueError:
            js = None
        diags = []
        for l in r.stderr.splitlines():
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
        if js is None:
            diags.append(dict(level="error", message="verus gave no result: " + r.stderr[-300:], spans=[], rendered=""))
        return js, diags

    @staticmethod
    def breakdown(js):
        fs, ms = {}, 0
        for m in js.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            for f in m["function-breakdown"]:
                n = f["function"].split("::", 1)[1] if "::" in f["function"] else f["function"]
                fs[n] = fs.get(n, True) and f["success"]
                ms += f["time"]
        return fs, ms

    def run(self, probe=True):
        t0 = time.time()
        for attempt in range(8):
            out, rep = self.gen()
            if out is None:
                return self
            self.bodies = rep["bodies"]
            for i, b in enumerate(self.bodies):
                if i not in self.skipped and b["status"] != "ok":
                    self.skipped[i] = "; ".join(b.get("why") or []) or "calls %s, which has no contract" % ", ".join(b.get("uncontracted_callees") or [])
                    rep = None
            if rep is None:
                continue
            js, diags = self.verus(out, errors=0 if self.unit.startswith("py_") else 6)
            if js is None and not diags:
                self.problem = "the verifier ran out of time"
                return self
            lines = open(out).read().split("\n")
            line2body = {}
            line2src = {}
            for g, s, b in rep["map"]:
                line2body[g] = b
                line2src[g] = (self.bodies[b]["file"], s)
            res = (js or {}).get("verification-results", {})
            errs = [d for d in diags if d.get("level") == "error" and not d["message"].startswith("aborting due")]
            if js is None or res.get("encountered-vir-error") or (res.get("encountered-error") and not res.get("errors")) or ("verified" not in res):
                # does not compile as Verus: leave out the bodies concerned
                hit = set()
                for d in errs:
                    for s in d["spans"]:
                        for ln in range(s["line_start"], s["line_end"] + 1):
                            if ln in line2body and line2body[ln] not in self.skipped:
                                hit.add((line2body[ln], d["message"][:200]))
                if hit and attempt < 7:
                    for b, m in hit:
                        self.skipped[b] = "not accepted by the verifier: " + m
                    continue
                self.problem = "the generated file is not accepted: " + "; ".join(d["message"][:200] for d in errs[:3])
                return self
            break
        else:
            self.problem = "could not be generated"
            return self
        self.funcs, self.smt_ms = self.breakdown(js)
        self.lines = lines
        fn_at = self.fn_lines(lines)
        def note(d):
            if not d["spans"]:
                return
            rl = "rlimit" in d["message"].lower() or "resource limit" in d["message"].lower()
            allsp = d["spans"] + [s for c in d.get("children", []) for s in c.get("spans", [])]
            prim = [s for s in d["spans"] if s.get("is_primary")] or d["spans"]
            tags, clause = set(), ""
            for s in allsp:
                for ln in range(s["line_start"], s["line_end"] + 1):
                    m = re.search(r"//\s*\[((?:C\d+[ ,]*)+)\]", lines[ln - 1]) if ln <= len(lines) else None
                    if m:
                        tags |= set(re.findall(r"C\d+", m.group(1)))
            for s in prim:
                clause = " ".join(x.strip() for x in lines[s["line_start"] - 1:min(s["line_end"], s["line_start"] + 5)])
            srcs = ["%s:%d" % line2src[s["line_start"]] for s in allsp if s["line_start"] in line2src]
            fns = {fn_at(s["line_start"]) for s in allsp} - {None}
            bad = [f for f in fns if self.funcs.get(f) is False]
            self.errors.append(dict(functions=sorted(bad or fns), message=d["message"], clause=clause[:400], src=srcs,
                                    tags=sorted(tags), rlimit=rl, rendered=d.get("rendered", "")))
        for d in errs:
            note(d)
        # a failed query may be the solver's fault: ask again with other seeds and more resources
        for f in [f for f, ok in self.funcs.items() if not ok]:
            for extra in (["--rlimit", "60", "--smt-option", "smt.random_seed=7"],
                          ["--rlimit", "60", "--smt-option", "smt.random_seed=23", "--smt-option", "smt.arith.solver=2"]):
                js2, dg2 = self.verus(out, ["--verify-root", "--verify-function", f] + extra, timeout=200, errors=0)
                if js2:
                    fs2, ms2 = self.breakdown(js2)
                    self.smt_ms += ms2
                    if fs2.get(f) is True and js2["verification-results"].get("success"):
                        self.funcs[f] = True
                        self.errors = [e for e in self.errors if e["functions"] != [f]]
                        break
            else:
                if self.unit.startswith("py_"):  # what else fails: asked for only now, as it can take minutes
                    for d in self.verus(out, ["--verify-root", "--verify-function", f], timeout=120, errors=4)[1]:
                        if d.get("level") == "error" and not d["message"].startswith("aborting due"):
                            note(d)
        self.scan_trusted(lines)
        if probe and all(self.funcs.values()):
            self.run_probe()
        self.wall = time.time() - t0
        return self

    def fn_lines(self, lines):
        """line -> qualified function name, by a plain scan of the generated file"""
        table, impl, depth_impl = [], None, 0
        cur = None
        for i, l in enumerate(lines, 1):
            m = re.match(r"^(?:pub )?impl(?:<[^{]*?>)?\s+(?:[\w:<>, ]+ for )?([A-Za-z_]\w*)", l)
            if m and not l.startswith(" "):
                impl = m.group(1)
            elif re.match(r"^\S", l) and not l.startswith("}") and not l.startswith("/"):
                if re.match(r"^(pub |proof |spec |open |closed |broadcast |uninterp |axiom )*fn ", l):
                    impl = None
            m = re.match(r"^(\s*)(?:#\[[^\]]*\]\s*)?(?:pub(?:\([^)]*\))? |open |closed |proof |exec |spec |broadcast |uninterp |axiom )*fn (\w+)", l)
            if m and len(m.group(1)) <= 4:
                cur = ("%s::%s" % (impl, m.group(2))) if m.group(1) and impl else m.group(2)
            table.append(cur)
        return lambda ln: table[ln - 1] if 0 < ln <= len(table) else None

    def scan_trusted(self, lines):
        """every assumption left in the generated file"""
        for i, l in enumerate(lines):
            s = l.strip()
            if s.startswith("//"):
                continue
            if "external_body" in s or "assume_specification" in s or re.search(r"\b(assume|admit)\s*\(", s) or re.search(r"\baxiom fn\b", s) or "external_type_specification" in s:
                nxt = s
                if "external_body" in s:
                    for k in range(i, min(i + 4, len(lines))):
                        m = re.search(r"\b(?:fn|struct|enum) (\w+)", lines[k])
                        if m:
                            nxt = "external_body " + m.group(0)
                            break
                self.trusted.append(re.sub(r"\s+", " ", nxt)[:140])

    def run_probe(self):
        out, rep = self.gen(probe=True)
        if out is None:
            return
        js, diags = self.verus(out, errors=0)
        if js is None:
            return
        fs, _ = self.breakdown(js)
        lines = open(out).read().split("\n")
        at = self.fn_lines(lines)
        vac = []
        names = {}
        for g, s, b in rep["map"]:
            names.setdefault(b, at(g))
        for b, n in names.items():
            if b in self.skipped or n is None or n not in fs:
                continue
            if fs[n] is True:
                vac.append(n)
        self.vacuous = vac
        self.probed = len([n for b, n in names.items() if b not in self.skipped and n in fs])

    def body_fn(self):
        """body index -> function name"""
        at = self.fn_lines(self.lines)
        return at


class Result:
    def __init__(self):
        self.status = "none"     # proved / failed / undecided / none
        self.reasons = []
        self.failures = []       # (unit run, error)
        self.obligations = 0
        self.discharged = 0
        self.smt_ms = 0
        self.functions = []
        self.trusted = []
        self.cmds = []
        self.units = []
        self.vacuity = []
        self.dropped = []


def decide(prop, probe=True):
    res = Result()
    todo = [(u, v, d) for u, i in units().items() if prop in i["claims"] for v, d in i["variants"]]
    if not todo:
        return res
    info = units()
    ok, log = build_vx()
    if not ok:
        res.status = "undecided"
        res.reasons.append("the extractor does not build: " + log[-300:])
        return res
    with Scratch() as work:
        with ThreadPoolExecutor(4) as ex:
            runs = list(ex.map(lambda x: UnitRun(x[0], x[1], x[2], work).run(probe), todo))
        for r in runs:
            # `~f`: only clauses of f tagged with this property count for it
            only = {f[1:] for f in info[r.unit]["claims"][prop] if f.startswith("~")}
            claimed = {f.lstrip("~") for f in info[r.unit]["claims"][prop]}
            res.units.append(r.name)
            if r.problem:
                res.reasons.append("%s: %s" % (r.name, r.problem))
                res.obligations += len(claimed)
                continue
            res.smt_ms += r.smt_ms
            res.cmds += r.cmds[:1]
            res.trusted += ["%s: %s" % (r.unit, t) for t in r.trusted]
            at = r.fn_lines(r.lines)
            skipped_fns = {}
            rep = json.load(open(os.path.join(work, r.name + ".rs.json")))
            body_fns = {}
            for g, s, b in rep["map"]:
                body_fns.setdefault(b, at(g))
            for b, why in r.skipped.items():
                skipped_fns[body_fns.get(b)] = why
            for b, bd in enumerate(r.bodies):
                f = body_fns.get(b)
                if f in claimed:
                    res.functions.append("%s %s (lines %s) as %s in unit %s" % (bd["file"], bd["item"], "-".join(map(str, bd.get("lines", []))), f, r.name))
                    for n in bd.get("rewrites", []):
                        res.dropped.append("%s: %s" % (bd["item"], n))
            for f in sorted(claimed):
                res.obligations += 1
                if f in skipped_fns:
                    res.reasons.append("%s: %s could not be brought under its contract: %s" % (r.name, f, skipped_fns[f]))
                    continue
                if f not in r.funcs:
                    res.reasons.append("%s: no obligation was generated for %s" % (r.name, f))
                    continue
                if r.funcs[f]:
                    if r.vacuous and f in r.vacuous:
                        res.reasons.append("%s: the proof of %s is vacuous" % (r.name, f))
                        continue
                    res.discharged += 1
                    continue
                mine = [e for e in r.errors if f in e["functions"]]
                hit = [e for e in mine if not e["rlimit"] and ((not e["tags"] and f not in only) or prop in e["tags"])]
                if hit and f in body_fns.values():
                    for e in hit:
                        res.failures.append((r, f, e))
                else:
                    res.reasons.append("%s: %s not discharged (%s)" % (r.name, f, "; ".join(e["message"] for e in mine) or "no diagnosis"))
            # what the claims rest on inside the unit: every other function must be verified too
            for f, okf in r.funcs.items():
                if not okf and f not in claimed:
                    res.reasons.append("%s: %s, on which other proofs may rest, is not verified" % (r.name, f))
            for f, why in skipped_fns.items():
                if f not in claimed:
                    res.reasons.append("%s: %s left out: %s" % (r.name, f, why))
            if r.vacuous is not None:
                res.vacuity.append("%s: %d bodies probed, %d vacuous" % (r.name, r.probed, len(r.vacuous)))
    if res.failures:
        res.status = "failed"
    elif res.reasons or res.discharged < res.obligations:
        res.status = "undecided"
    else:
        res.status = "proved"
    res.trusted = sorted(set(res.trusted))
    res.dropped = sorted(set(res.dropped))
    return res
