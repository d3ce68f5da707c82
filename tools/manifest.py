"""Writes MANIFEST.json from properties.jsonl and plan.py."""
import json, os, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from plan import PLAN, bound

props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
checks = []
for p in props:
    if p["id"] not in PLAN:
        continue
    q = PLAN[p["id"]]
    note = "Bounded: quick decides " + "; ".join(bound(h) for h in q["quick"]) + "."
    if q.get("thorough"):
        note += " Thorough: " + "; ".join(bound(h) for h in q["thorough"]) + "."
    note += (" All paths of the real code within these bounds are executed symbolically; shapes and operands are solver variables over which"
             " paths fork (every feasible value by z3), data and machine-word operands stay symbolic in the assertions. Nothing is claimed outside the bounds;"
             " allocation failure and threads are out of scope.")
    c = {"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"]}
    if q.get("thorough"):
        c["thorough_cmd"] = "python3 check.py %s --tier thorough" % p["id"]
    c.update({"technique": "symbolic execution of the crate's LLVM IR with z3 against a reference model; counterexamples replayed natively",
              "level": "model_checking", "level_note": note, "evidence_file": "evidence/%s.json" % p["id"]})
    checks.append(c)
m = {
    "version": 1,
    "setup_cmd": "python3 tools/build.py",
    "hooks": {"guard": "none", "enable": "no hooks are needed: the harnesses use the public API only", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": "no check yet"} for p in props if p["id"] not in PLAN],
    "notes": "DESIGN.md describes the machinery. known-findings.txt lists the defects that were found and repaired.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
