#!/usr/bin/env python3
"""Decide one property:  check.py <property> [--tier quick|thorough]"""
import importlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import load  # noqa: E402
from report import Report  # noqa: E402

MODULES = {
    "C21": "graph", "C22": "graph", "C28": "features",
}
for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C19", "C20", "C23", "C24", "C25", "C26", "C27"):
    MODULES[_p] = "interp"


def known(prop):
    out = []
    p = os.path.join(load.VERIF, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: property=%s " % prop):
                    out.append(line.split(" ", 2)[2])
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    os.makedirs(os.path.join(load.VERIF, "evidence"), exist_ok=True)
    sys.setrecursionlimit(20000)
    rep = Report(prop)
    m = importlib.import_module("props." + MODULES[prop])
    m.check(prop, rep, tier)
    new = []
    kn = known(prop)
    for v in rep.violations:
        if v["key"] in kn:
            print("KNOWN-FINDING: property=%s %s" % (prop, v["what"]))
        else:
            new.append(v)
    cov = dict(rep.coverage)
    cov.setdefault("obligations", 0)
    cov["discharged"] = max(0, cov["obligations"] - len(rep.violations) - len(rep.inconclusive))
    cov["inconclusive"] = len(rep.inconclusive)
    cov["inconclusive_list"] = rep.inconclusive[:40]
    cov["rule"] = rep.rule
    cov["checker_cmd"] = "python3 /verif/sa/check.py %s" % prop
    cov["trusted_base"] = ["rustc's MIR construction", "/verif/driver", "/verif/sa",
                           "/verif/probe"] + rep.assumptions
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "proof", "coverage": cov, "assumptions": rep.assumptions,
        "violations": [{"key": v["key"], "what": v["what"], "where": v["where"]} for v in new],
        "wall_s": round(time.time() - t0, 3),
    }
    with open(os.path.join(load.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(rep.coverage):
        if isinstance(rep.coverage[k], (int, float)):
            print("%s: %s" % (k, rep.coverage[k]))
    for x in rep.inconclusive[:40]:
        print("undecided: %s" % x)
    rp = os.path.join(load.VERIF, "evidence", prop + ".violation.txt")
    if os.path.exists(rp):
        os.remove(rp)
    if new:
        with open(rp, "w") as f:
            f.write("checked with: python3 /verif/sa/check.py %s\n" % prop)
            for v in new:
                f.write("\n%s\n  %s\n  at %s\n" % (v["key"], v["what"], v["where"]))
                for p in v["path"]:
                    f.write("    %s\n" % p)
        for v in new:
            print("%s: %s (%s)" % (prop, v["what"], v["where"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if rep.inconclusive:
        print("%s: no violation found, %d of %d obligations undecided" % (prop, len(rep.inconclusive), cov["obligations"]))
    else:
        print("%s holds: %d obligations" % (prop, cov["obligations"]))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except load.ToolError as e:
        print("error: %s" % e)
        sys.exit(3)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)
