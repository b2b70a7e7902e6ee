#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties, the contracts' claims and the table of bounded checks."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "lib"))
import ded, props
units = ded.units()
NOT = {}
exec(open(os.path.join(V, "scripts", "not_applicable.py")).read())
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    q = json.loads(l)["id"]
    if q in NOT:
        na.append(dict(property=q, reason=NOT[q]))
        continue
    cl = {u: i["claims"][q] for u, i in units.items() if q in i["claims"]}
    thms = sorted({f for c in cl.values() for f in c if "theorem" in f or "lemma" in f})
    if cl:
        cl = {u: [f.lstrip("~") for f in c] for u, c in cl.items()}
        note = ("Verus discharges, on every run and for all inputs, the contracts of: %s, on bodies extracted mechanically from /repo's current source. "
                "Assumed: the contracts of std and third-party calls listed in the evidence's trusted_base (sequential meaning of atomics unless the unit says otherwise), the extraction rewrites listed there. "
                "Beside it a bounded layer runs the real code against an oracle; it is never counted as proved. %s") % (
                    "; ".join("%s (unit %s)" % (", ".join(f for f in c if "theorem" not in f and "lemma" not in f), u) for u, c in cl.items()), LIMITS.get(q, ""))
        level, tech = "proof", "Verus contracts on extracted real code; bounded runs of the real code for failing inputs"
    else:
        note = "Bounded only: %s" % LIMITS.get(q, "no function of this property is under contract yet; concrete runs of the real code against an independent oracle.")
        level, tech = "exploration", "bounded stand-in: the real code against an independent oracle"
    c = dict(property=q, quick_cmd="python3 check.py " + q, thorough_cmd="VERIF_TIER=thorough python3 check.py " + q,
             evidence_file="evidence/%s.json" % q, technique=tech, level=level, level_note=note.strip())
    if thms:
        c["theorems"] = thms
    checks.append(c)
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="See DESIGN.md. No hooks in /repo: private items are reached by extraction (tools/vx) and by #[path] inclusion (cmdh).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", sum(c["level"] == "proof" for c in checks), "with contracts;", len(na), "not applicable")
