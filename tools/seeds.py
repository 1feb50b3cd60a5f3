#!/usr/bin/env python3
"""python3 tools/seeds.py [ID-SUBSTR] [--checks]: (re)creates /verif/seeded/<id>/ from the table SEEDS below and confirms each planted bug in a
scratch copy of /repo: the patch builds, the stable tests pass with it, and demo.sh exits 0 without and nonzero with it."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")
SCR = os.environ.get("SEED_DIR", "/tmp/seedw")
SEEDS = []

DEMO_RUN = r'''#!/bin/bash
# run with cwd = the repository; builds a small client of the crate in a scratch directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTC_WRAPPER; export RUSTFLAGS=-Awarnings
tmp=$(mktemp -d) || exit 3
trap 'rm -rf -- "$tmp"' EXIT
mkdir "$tmp/src" && cp "$here/main.rs" "$tmp/src/main.rs" || exit 3
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
orx-concurrent-vec = { path = "$repo" }
[workspace]
END
cd "$tmp" || exit 3
CARGO_TARGET_DIR="$tmp/target" cargo build @PROFILE@ --offline -q || exit 3
ulimit -c 0
timeout 120 "$tmp/target/@DIR@/demo"
'''

DEMO_MIRI = r'''#!/bin/bash
# run with cwd = the repository; runs a small client of the crate in a scratch directory under the interpreter, which reports data races
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTC_WRAPPER; export RUSTFLAGS=-Awarnings
tmp=$(mktemp -d) || exit 3
trap 'rm -rf -- "$tmp"' EXIT
mkdir "$tmp/src" && cp "$here/main.rs" "$tmp/src/main.rs" || exit 3
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
orx-concurrent-vec = { path = "$repo" }
[workspace]
END
cd "$tmp" || exit 3
export CARGO_TARGET_DIR="$tmp/target" MIRIFLAGS="-Zmiri-disable-isolation"
unset RUSTUP_TOOLCHAIN
for seed in 1 2 3 4 5 6; do
    MIRIFLAGS="-Zmiri-ignore-leaks -Zmiri-seed=$seed" timeout 100 cargo +nightly miri run --offline -q || exit 1
done
'''

DEMO_FAIL = r'''#!/bin/bash
# run with cwd = the repository; ok.rs (control) must compile, bad.rs (a client the API has to rule out) must not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTC_WRAPPER; export RUSTFLAGS=-Awarnings
tmp=$(mktemp -d) || exit 3
trap 'rm -rf -- "$tmp"' EXIT
mkdir "$tmp/src" "$tmp/src/bin" && cp "$here/ok.rs" "$here/bad.rs" "$tmp/src/bin/" || exit 3
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
orx-concurrent-vec = { path = "$repo" }
[workspace]
END
cd "$tmp" || exit 3
export CARGO_TARGET_DIR="$tmp/target"
cargo check --offline -q --bin ok || { echo "control does not compile"; exit 3; }
if cargo check --offline -q --bin bad 2> "$tmp/err"; then
    echo "a client that must be rejected compiles"; exit 1
fi
grep -q "@CODE@" "$tmp/err" || { cat "$tmp/err"; exit 2; }
exit 0
'''


def seed(prop, name, edits, needs, breaks, main=None, ok=None, bad=None, code=None, profile="--release"):
    SEEDS.append(dict(id=f"{prop}-{name}", prop=prop, edits=edits, needs=needs, breaks=breaks, main=main, ok=ok, bad=bad, code=code,
                      profile=profile))


sys.path.insert(0, HERE)
for _f in sorted(os.listdir(HERE)):
    if _f.startswith("seeds_") and _f.endswith(".py"):
        with open(os.path.join(HERE, _f)) as f:
            exec(compile(f.read(), _f, "exec"))


def sh(cmd, cwd=None, timeout=900):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                           env=dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true"))
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def apply(repo, edits):
    for e in edits:
        f, old, new = e[:3]
        p = f"{repo}/src/{f}"
        with open(p) as x:
            s = x.read()
        n = s.count(old)
        if len(e) > 3:
            parts = s.split(old)
            if e[3] >= n:
                return f"occurrence {e[3]} of {old!r} not in {f} ({n})"
            s = old.join(parts[:e[3] + 1]) + new + old.join(parts[e[3] + 1:])
        elif n != 1:
            return f"{old!r} occurs {n} times in {f}"
        else:
            s = s.replace(old, new)
        with open(p, "w") as x:
            x.write(s)
    return None


def main():
    key = next((a for a in sys.argv[1:] if not a.startswith("-")), "")
    os.makedirs(SCR, exist_ok=True)
    repo = SCR + "/repo"
    if not os.path.exists(repo):
        sh(f"git clone -q /repo {repo} && cp /repo/Cargo.lock {repo}/")
    sh("git fetch -q origin && git reset -q --hard origin/HEAD", cwd=repo)
    stable = json.load(open("/opt/vp/BASELINE.json"))
    for s in SEEDS:
        if key not in s["id"]:
            continue
        sh("git checkout -q -- . && git clean -fdq -e Cargo.lock -e target", cwd=repo)
        err = apply(repo, s["edits"])
        if err:
            print("ERROR", s["id"], err)
            continue
        d = os.path.join(SEEDED, s["id"])
        t = os.path.join(SCR, "demo")
        if os.path.exists(t):
            shutil.rmtree(t)
        os.makedirs(t)
        rc, diff = sh("git diff", cwd=repo)
        with open(t + "/patch.diff", "w") as f:
            f.write(diff)
        with open(t + "/meta.json", "w") as f:
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, f, indent=1)
            f.write("\n")
        if s["main"]:
            miri = s["profile"] == "miri"
            files = {"main.rs": s["main"], "demo.sh": DEMO_MIRI if miri else DEMO_RUN.replace("@PROFILE@", s["profile"]).replace("@DIR@", "release" if s["profile"] else "debug")}
        else:
            files = {"ok.rs": s["ok"], "bad.rs": s["bad"], "demo.sh": DEMO_FAIL.replace("@CODE@", s["code"])}
        for n, x in files.items():
            with open(f"{t}/{n}", "w") as f:
                f.write(x.lstrip("\n") if n != "demo.sh" else x)
        os.chmod(t + "/demo.sh", 0o755)
        rc1, o1 = sh(f"bash {t}/demo.sh", cwd=repo, timeout=300)
        rc, o = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", cwd=repo)
        fails = [ln for ln in o.splitlines() if ln.startswith("test ") and ln.rstrip().endswith("FAILED")]
        sh("git checkout -q -- .", cwd=repo)
        rc0, o0 = sh(f"bash {t}/demo.sh", cwd=repo, timeout=300)
        good = rc0 == 0 and rc1 not in (0, 3) and rc == 0
        print("GOOD " if good else "BAD  ", s["id"], "demo clean", rc0, "patched", rc1, "tests", "ok" if rc == 0 else (fails or o[-1500:]), flush=True)
        if not good:
            print("   clean:", o0[-800:], "\n   patched:", o1[-800:])
        else:
            print("      ", o1.strip()[-200:])
            if os.path.exists(d):
                shutil.rmtree(d)
            shutil.copytree(t, d)


main()
