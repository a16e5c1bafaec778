"""writes MANIFEST.json from vc/registry.py and properties.jsonl"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + "/vc")
from registry import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
TECH = "contract-based deductive verification: contracts on the functions extracted from the AST of /repo, why3 obligations discharged by cvc5/z3; bounded concrete oracle for replay and for functions without contract"
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": c.get("technique", TECH),
                       "level": c["level"], "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 -B -c \"import sys; sys.path.insert(0, 'vc'); import prove, build, registry\"",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks: /repo carries no instrumentation, only fix: commits. See DESIGN.md and known_findings.json."},
          open(R + "/MANIFEST.json", "w"), indent=1)
