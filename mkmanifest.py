"""writes MANIFEST.json from engine/describe.py"""
import json
from engine.describe import PROPS, NOT_APPLICABLE

checks = []
for p, d in PROPS.items():
    checks.append({
        "property": p,
        "quick_cmd": f"python3 check.py {p}",
        "thorough_cmd": f"python3 check.py {p}",
        "technique": d["tech"],
        "level": "other",
        "level_note": d["short"] + " Assumes: " + "; ".join(d["assume"]) + ". Obligations the analysis cannot decide are counted as undecided in the "
                      "evidence and are not reported as violations.",
    })
m = {"version": 1, "setup_cmd": "python3 pipeline.py", "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in NOT_APPLICABLE.items()],
     "notes": "No hooks in /repo: private items are seen through the compiler. The single known finding is in known-findings.jsonl."}
with open("MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
