import json
import os

D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
MUTANTS = [dict(id=x, kind="bug", prop=json.load(open(f"{D}/{x}/meta.json"))["property"], patch=f"{D}/{x}/patch.diff") for x in sorted(os.listdir(D))]
