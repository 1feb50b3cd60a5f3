#!/usr/bin/env python3
"""python3 check.py <property>: decides one property over /repo's current source. Exit 0 held, 1 violated, 2 no answer."""
import json
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import pipeline  # noqa: E402
from engine import describe, suite, witness  # noqa: E402
from engine.analysis import Analysis  # noqa: E402

KNOWN = os.path.join(HERE, "known-findings.jsonl")
EVID = os.path.join(HERE, "evidence")


def known(prop):
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for ln in f:
                ln = ln.strip()
                if ln.startswith("{"):
                    e = json.loads(ln)
                    if e["property"] == prop:
                        out.append(e)
    return out


def analyse(prop, dump, models, cfg, res):
    t = time.time()
    a = Analysis(dump, models)
    js = suite.jobs(a, prop)
    mons = []
    for j in js:
        try:
            m = suite.run_job(a, prop, j)
        except Exception as e:  # the analysis has no answer for this entry point
            res["no_answer"].append({"function": j.root.path, "config": cfg, "why": f"{type(e).__name__}: {e}",
                                     "trace": traceback.format_exc(limit=-3)})
            continue
        mons.append(m)
        if m.gaveup:
            res["no_answer"].append({"function": j.root.path, "config": cfg, "why": m.gaveup})
        for k, v in m.proved.items():
            res["proved"][k] = res["proved"].get(k, 0) + v
        for k, v in m.undecided.items():
            res["undecided"].setdefault(k, {})
            res["undecided"][k][j.root.path] = res["undecided"][k].get(j.root.path, 0) + v
        res["entry_points"].setdefault(j.root.path, set()).add(type(m).__name__ + (f" ({j.label})" if j.label else ""))
        for f in m.found.values():
            res["found"].append(dict(f, config=cfg, fn=f"{j.root.owner}::{j.root.name}"))
    for f in suite.across(a, prop, mons):
        res["found"].append(dict(f, config=cfg))
    for k in ("functions", "loops", "unknown"):
        res[k] |= {str(x) for x in a.stats[k]}
    for k in ("calls", "steps", "panics"):
        res[k] += a.stats[k]
    for n, f in suite.lints(a, prop):
        if f is None:
            res["proved"][n] = res["proved"].get(n, 0) + 1
        else:
            res["found"].append(dict(f, config=cfg))
    res["jobs"] += len(js)
    res["configs"].append({"config": cfg, "seconds": round(time.time() - t, 2)})


def fn_name(p):
    return re.sub(r"\s+", " ", re.sub(r"#\d+", "", p))


def main(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    res = {"found": [], "proved": {}, "undecided": {}, "no_answer": [], "entry_points": {}, "functions": set(), "loops": set(),
           "unknown": set(), "calls": 0, "steps": 0, "panics": 0, "jobs": 0, "configs": [], "witnesses": []}
    os.makedirs(EVID, exist_ok=True)
    rp = os.path.join(EVID, f"{prop}.violations.txt")
    for f in (rp, os.path.join(EVID, f"{prop}.json")):
        if os.path.exists(f):
            os.remove(f)
    with pipeline.lock():
        for cfg in ("debug", "release"):
            if not suite.uses_mir(prop) and cfg != "debug":
                continue
            dump = os.path.join(pipeline.BUILD, f"dump-{os.getpid()}.json")
            try:
                models = pipeline.extract(dump, cfg)
                analyse(prop, dump, models, cfg, res)
            finally:
                if os.path.exists(dump):
                    os.remove(dump)
        witness.run(prop, res)
    if not (res["proved"] or res["found"] or res["witnesses"]):
        raise pipeline.ToolError("nothing was decided: " + json.dumps(res["no_answer"])[:2000])

    kn = known(prop)
    merged = {}
    for f in res["found"]:
        k = (f["rule"], fn_name(f["root"]), f["site"], f["message"])
        merged.setdefault(k, dict(f, configs=set()))["configs"].add(f.pop("config"))
    new, hit = [], []
    for f in merged.values():
        for e in kn:
            if e["rule"] == f["rule"] and e["function"] == f.get("fn"):
                hit.append((e, f))
                break
        else:
            new.append(f)
    proved = sum(res["proved"].values())
    undec = sum(sum(v.values()) for v in res["undecided"].values())
    d = describe.PROPS[prop]
    obl = proved + undec + sum(1 for _ in merged)
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": d["explain"],
            "rules": d["rules"],
            "supporting_rules": sorted((set(res["proved"]) | set(res["undecided"]) | {f["rule"] for f in merged.values()}) - set(d["rules"])),
            "entry_points": {k: sorted(v) for k, v in sorted(res["entry_points"].items())},
            "analysis_runs": res["jobs"],
            "functions_analysed": sorted(res["functions"]),
            "loops_generalised": len(res["loops"]),
            "calls_interpreted": res["calls"],
            "abstract_steps": res["steps"],
            "panicking_paths_excluded": res["panics"],
            "obligations": obl,
            "discharged": proved,
            "obligations_by_rule": res["proved"],
            "undecided_by_rule": res["undecided"],
            "no_answer": res["no_answer"],
            "calls_without_model": sorted(res["unknown"])[:60],
            "configurations": res["configs"],
            "witness_programs": res["witnesses"],
            "known_findings_seen": [e["what"] for e, _ in hit],
        },
        "assumptions": d["assume"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    seen = set()
    for e, _ in hit:
        if e["what"] not in seen:
            seen.add(e["what"])
            print(f"KNOWN-FINDING: property={prop} {e['what']}")
    if not new:
        print(f"{prop}: {proved} obligations discharged, {undec} undecided, {len(res['no_answer'])} entry points without answer, "
              f"{len(res['functions'])} functions, {len(res['witnesses'])} witness programs, {ev['wall_s']} s")
        return 0
    with open(rp, "w") as f:
        f.write(f"property {prop}\nreproduce: cd {HERE} && python3 check.py {prop}\n")
        for v in new:
            f.write(f"\nrule      {v['rule']}\nfunction  {v['root']}\nsite      {v['site']}\nwhat      {v['message']}\n"
                    f"build     {', '.join(sorted(v['configs']))}\n")
            if v["path"]:
                f.write("path\n" + "".join(f"  {x}\n" for x in v["path"][-60:]))
    for v in new[:10]:
        print(f"{prop} {v['rule']}: {v['message']} [{v['root']}; {v['site']}]")
    print(f"VIOLATION property={prop} replay={rp}")
    return 1


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1]))
    except pipeline.ToolError as e:
        print("no answer:", e)
        sys.exit(2)
