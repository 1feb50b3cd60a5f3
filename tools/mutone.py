"""worker of mutate.py: run every check's analysis over VERIF_REPO (already edited); prints one JSON line"""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check  # noqa: E402
import pipeline  # noqa: E402
from engine import suite, witness  # noqa: E402
from engine.analysis import Analysis  # noqa: E402


def main(props, wit):
    out = {"alarms": {}, "undecided": {}, "no_answer": {}, "proved": {}}
    with pipeline.lock():
        dump = os.path.join(pipeline.BUILD, "d.json")
        try:
            models = pipeline.extract(dump)
        except pipeline.ToolError as e:
            print(json.dumps({"error": str(e)}))
            return
        a = Analysis(dump, models)
        for p in props:
            kn = check.known(p)
            js = suite.jobs(a, p)
            mons = []
            fs = []
            for j in js:
                try:
                    m = suite.run_job(a, p, j)
                except Exception as e:
                    out["no_answer"].setdefault(p, []).append(f"{j.root.path}: {type(e).__name__}: {e} " + traceback.format_exc(limit=-3))
                    continue
                mons.append(m)
                if m.gaveup:
                    out["no_answer"].setdefault(p, []).append(f"{j.root.path}: {m.gaveup}")
                for k, v in m.proved.items():
                    d = out["proved"].setdefault(p, {})
                    d[k] = d.get(k, 0) + v
                for k, v in m.undecided.items():
                    d = out["undecided"].setdefault(p, {})
                    d[k] = d.get(k, 0) + v
                fs += [dict(f, fn=f"{j.root.owner}::{j.root.name}") for f in m.found.values()]
            fs += suite.across(a, p, mons)
            fs += [f for _, f in suite.lints(a, p) if f is not None]
            fs = [f for f in fs if not any(e["rule"] == f["rule"] and e["function"] == f.get("fn") for e in kn)]
            for f in fs:
                out["alarms"].setdefault(p, []).append(f"{f['rule']} | {f['root']} | {f['message']} | {f['site']}")
            if wit and p in ("C09", "C15", "C16"):
                res = {"found": [], "witnesses": [], "proved": {}, "undecided": {}, "no_answer": []}
                witness.run(p, res)
                for f in res["found"]:
                    out["alarms"].setdefault(p, []).append(f"{f['rule']} | {f['root']} | {f['message']}")
    print(json.dumps(out))


main(sys.argv[1].split(","), len(sys.argv) > 2 and sys.argv[2] == "w")
