#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS
T = {}
exec(open(os.path.join(HERE, "tools", "levels.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in CHECKS:
        tech, note = T[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": p, "reason": NA.get(p, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 setup.py", "hooks": {"guard": "CALIGO_VERIF", "enable": "no hooks were needed: the checks use the public headers and build /repo/src as it is; the define is reserved and unused", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Every check compiles /repo/src and /repo/include together with a harness in /verif/harness and explores exhaustively within the bounds given in DESIGN.md and in its evidence file."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
