"""rewrites the sections of DESIGN.md that follow from engine/describe.py, properties.jsonl, the evidence of the last run (supporting rules) and
the mutant table of the planted bugs: python3 tools/mkdesign.py [OUTPUT OF tools/mutate.py tools/mutants_seeds.py]"""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from engine.describe import PROPS, NOT_APPLICABLE  # noqa: E402

props = {x["id"]: x for x in map(json.loads, open(HERE + "/properties.jsonl"))}
s = open(HERE + "/DESIGN.md").read()


def section(title, body):
    global s
    m = re.search(r"^## " + re.escape(title) + r"\n.*?(?=^## |\Z)", s, re.M | re.S)
    new = f"## {title}\n\n{body.rstrip()}\n\n"
    s = s[:m.start()] + new + s[m.end():] if m else s.rstrip() + "\n\n" + new


out = []
for p, d in PROPS.items():
    t = f"**{p} {props[p]['title']}.** {d['short']} Rules: {', '.join(d['rules'])}."
    try:
        sup = json.load(open(f"{HERE}/evidence/{p}.json"))
        sup = sup.get("supporting_rules") or sup.get("details", {}).get("supporting_rules") or sup.get("coverage", {}).get("supporting_rules")
    except OSError:
        sup = None
    if sup:
        t += f" Supporting rules: {', '.join(sup)}."
    out.append(t + f" Beyond tests: {props[p]['why_tests_cant']}")
section("Properties", "\n\n".join(out))
section("Not applicable", "\n\n".join(f"**{p} {props[p]['title']}.** {r}" for p, r in NOT_APPLICABLE.items()))
if len(sys.argv) > 1:
    rows = ["Each planted bug in `seeded/` (what it needs is in its meta.json) and the checks that report it:", "", "| planted bug | reported by |", "|---|---|"]
    for ln in open(sys.argv[1]):
        m = re.match(r"(\S+) +(\S+) +(C\d\d) +alarms=(\{.*?\}) tests", ln)
        if m:
            al = eval(m.group(4))
            rows.append(f"| {m.group(2)} | {', '.join(al) or 'none'} |")
    section("Planted bugs", "\n".join(rows))
open(HERE + "/DESIGN.md", "w").write(s.rstrip() + "\n")
