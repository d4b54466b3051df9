"""Write MANIFEST.json from the table of checks."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = [
    ("C21", "effect analysis over the resolved call graph (MIR)", "proof",
     "every call site reachable from the library is classified"),
    ("C22", "cycle detection in the resolved call graph (MIR)", "proof",
     "strongly connected components of the monomorphic call graph"),
    ("C28", "comparison of the type-checked intermediate representation of both configurations", "proof",
     "identical MIR behaves identically"),
]
AI = "abstract interpretation of the type-checked program (MIR) with loop invariants against a stated specification"
AIN = ("all inputs at once; obligations the invariants leave open are reported as undecided unless "
       "following iterations apart confirms a violation")
for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C19", "C20", "C23", "C24", "C25", "C26", "C27"):
    CHECKS.append((p, AI, "proof", AIN))
NA = {"C18": "the number a reference denotes is an unbounded sum over its digits; the analysis that follows it in lockstep with a "
             "reference reader does not end within the time a check has, and checking short texts only would be a test of chosen inputs"}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
have = [c[0] for c in CHECKS]
checks = []
for p, tech, level, note in sorted(CHECKS):
    checks.append({
        "property": p,
        "quick_cmd": "python3 /verif/sa/check.py %s --tier quick" % p,
        "thorough_cmd": "python3 /verif/sa/check.py %s --tier thorough" % p,
        "technique": "static analysis: " + tech,
        "level": level,
        "level_note": note,
        "evidence_file": "evidence/%s.json" % p,
    })
m = {
    "version": 1,
    "setup_cmd": "bash /verif/setup.sh",
    "hooks": None,
    "checks": checks,
    "not_applicable": [{"property": p, "reason": NA.get(p, "check not built yet")}
                       for p in props if p not in have],
    "notes": "Static analysis of the type-checked program (MIR) of /repo; nothing of /repo is executed.",
}
if m["hooks"] is None:
    del m["hooks"]
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
