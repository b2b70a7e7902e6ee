#!/usr/bin/env python3
"""check.py <PROPERTY>: decide one property on /repo's current tree.

Deductive layer (lib/ded.py): Verus on the bodies extracted from the current source.
Bounded layer (lib/cli.py, lib/pyprops.py, harness/, cmdh/): concrete runs of the real code against
independent oracles; it supplies failing inputs and stands in where a function is out of reach."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import base
from base import *
import props

EV = os.path.join(VERIF, "evidence")


def known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("KNOWN-FINDING: property=%s " % pid):
                out.append(l)
    return out


def write_replay(pid, kind, text, files=None):
    d = os.path.join(EV, "replay", pid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(os.path.join(d, "README.txt"), "w") as f:
        f.write("property %s, %s\n\n%s\n" % (pid, kind, text))
    for n, b in (files or {}).items():
        p = os.path.join(d, "files", n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(b if isinstance(b, bytes) else b.encode())
    return os.path.join(d, "README.txt")


def main():
    pid = sys.argv[1]
    P = props.PROPS[pid]
    t0 = time.time()
    os.makedirs(EV, exist_ok=True)
    os.makedirs(CACHE, exist_ok=True)
    ded_res = [None]
    ded_err = []

    def run_ded():
        try:
            import ded
            ded_res[0] = ded.decide(pid)
        except Exception:
            ded_err.append(traceback.format_exc())
    th = threading.Thread(target=run_ded)
    th.start()
    viol, notes, rep = None, [], Report(P["rule"])
    try:
        for f in P["bounded"]:
            try:
                f(rep, notes)
            except Undecided as u:
                notes.append("bounded layer: " + str(u))
    except Violation as v:
        viol = v
    except Exception:
        notes.append("bounded layer: " + traceback.format_exc()[-1500:])
    th.join()
    d = ded_res[0]
    if ded_err:
        notes.append("deductive layer: " + ded_err[0][-1500:])
    exit_code = 0
    if viol is not None:
        cmd = " ".join(map(str, viol.cmd)) if viol.cmd else ""
        txt = viol.msg + ("\n\ncommand (run in a directory with the files): " + cmd if cmd else "")
        if d is not None and d.failures:
            txt += "\n\nThe deductive layer fails too:\n" + "\n".join("%s %s: %s: %s" % (r.name, f, e["message"], e["clause"]) for r, f, e in d.failures)
        path = write_replay(pid, "failing input found", txt, viol.files)
        print("%s: %s" % (pid, viol.msg[:3000]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        exit_code = 1
    elif d is not None and d.status == "failed":
        txt = ["The verifier rejects the following obligations of the code as it is now (they are discharged on the",
               "original tree).  Verus gives no counterexample, and no failing input was found.", ""]
        for r, f, e in d.failures:
            txt += ["unit %s, function %s (from %s)" % (r.name, f, ", ".join(e["src"]) or "?"), e["message"], "  " + e["clause"], "", e["rendered"], ""]
        path = write_replay(pid, "obligation not discharged", "\n".join(txt))
        for r, f, e in d.failures:
            print("%s: obligation of %s (unit %s) fails: %s: %s" % (pid, f, r.name, e["message"], e["clause"][:300]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        exit_code = 1
    for k in known(pid):
        print(k)
    # ---- evidence
    cov = rep.coverage()
    cov["bounded_layer"] = "bounded: concrete runs of the real code, never counted as proved"
    level = "exploration"
    if d is not None and d.status != "none":
        cov.update(obligations=d.obligations, discharged=d.discharged,
                   checker_cmd="; ".join(d.cmds) or "none", trusted_base=d.trusted,
                   functions_under_contract=d.functions, solver_ms=d.smt_ms, back_end="Verus 0.2026.09.13 / Z3",
                   vacuity_probes=d.vacuity, extraction_rewrites=d.dropped, deductive_status=d.status,
                   undecided_because=d.reasons,
                   failed_obligations=["%s %s: %s: %s" % (r.name, f, e["message"], e["clause"]) for r, f, e in d.failures])
        if d.status == "proved":
            level = "proof"
    if d is not None and d.status == "undecided":
        print("%s: the deductive layer is undecided: %s" % (pid, " | ".join(d.reasons)[:2000]))
    if notes:
        cov["notes"] = notes
        for n in notes:
            print("%s: note: %s" % (pid, n[:1500]))
    if level == "exploration" and not (cov["evaluations"] and cov["samples"]):
        level = "other"
        cov["explanation"] = "nothing was decided on this tree: " + "; ".join(notes)[:2000]
    ev = dict(property=pid, tier=TIER, seed=SEED, level=level, coverage=cov, wall_s=round(time.time() - t0, 2),
              violations=exit_code, assumptions=P["assumes"])
    with open(os.path.join(EV, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %s; deductive %s (%s/%s obligations), bounded: %d cases, %.1f s" % (
        pid, "VIOLATED" if exit_code else "held", d.status if d else "error", d.discharged if d else 0, d.obligations if d else 0,
        rep.evaluations, time.time() - t0))
    sys.exit(exit_code)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        sys.exit(0)
