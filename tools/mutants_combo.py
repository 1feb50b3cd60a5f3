"""Random combinations of the edits that keep the behaviour (COMBO_SEED, COMBO_N, COMBO_K): several refactorings at once."""
import importlib.util
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from mutate import apply  # noqa: E402

POOL = []
for f in ("same", "same2", "same3", "same4", "same5"):
    spec = importlib.util.spec_from_file_location(f, f"{HERE}/mutants_{f}.py")
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    POOL += [m for m in mod.MUTANTS if m["kind"] == "same" and "patch" not in m and m["id"] != "s5-ext-split-at"]
rnd = random.Random(int(os.environ.get("COMBO_SEED", "1")))
N, K = int(os.environ.get("COMBO_N", "50")), int(os.environ.get("COMBO_K", "7"))
MUTANTS = []
T = os.environ.get("COMBO_TMP") or tempfile.mkdtemp(prefix="combo")
env = dict(os.environ, CARGO_TARGET_DIR=T + "/t", RUSTFLAGS="-Awarnings")
tries = 0
while len(MUTANTS) < N and tries < 3 * N:
    tries += 1
    edits, names = [], []
    shutil.rmtree(T + "/r", ignore_errors=True)
    subprocess.run(f"git clone -q /repo {T}/r && cp /repo/Cargo.lock {T}/r/", shell=True, check=True)
    picks = rnd.sample(POOL, K * 2)
    for m in picks:
        if len(names) == K:
            break
        keep = {f: open(f"{T}/r/src/{f}").read() for f in {e[0] for e in m["edits"]}}
        ok = apply(T + "/r", m["edits"]) is None
        if ok:
            ok = subprocess.run("cargo +nightly check --lib --offline -q", shell=True, cwd=T + "/r", env=env, capture_output=True).returncode == 0
        if not ok:
            for f, s in keep.items():
                open(f"{T}/r/src/{f}", "w").write(s)
            continue
        edits += m["edits"]
        names.append(m["id"])
    MUTANTS.append({"kind": "same", "id": "combo:" + "+".join(names), "prop": "", "edits": edits})
shutil.rmtree(T, ignore_errors=True)
