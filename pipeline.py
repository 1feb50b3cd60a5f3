"""Builds the extractor and extracts the current source of /repo.

Everything is written below /verif/build (ignored by git); /repo is only read.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
REPO = os.environ.get("VERIF_REPO", "/repo")
CRATE = "orx_concurrent_vec"


class ToolError(Exception):
    pass


def run(cmd, env=None, cwd=None):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "RUSTC", "CARGO_ENCODED_RUSTFLAGS", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    e.update(env or {})
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def sysroot():
    rc, out = run(["rustc", "+nightly", "--print", "sysroot"])
    if rc != 0:
        raise ToolError("nightly toolchain not available: " + out)
    return out.strip()


def digest(*files):
    h = hashlib.sha256()
    for f in files:
        with open(f, "rb") as x:
            h.update(x.read())
    return h.hexdigest()


def lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def stamp(name, dig):
    p = os.path.join(BUILD, name + ".stamp")
    try:
        with open(p) as f:
            return f.read() == dig
    except OSError:
        return False


def set_stamp(name, dig):
    with open(os.path.join(BUILD, name + ".stamp"), "w") as f:
        f.write(dig)


def build_tools():
    """the extractor and the extracted models of library code; cached by content"""
    src = os.path.join(HERE, "driver", "driver.rs")
    mod = os.path.join(HERE, "models", "models.rs")
    drv = os.path.join(BUILD, "driver")
    sr = sysroot()
    env = {"LD_LIBRARY_PATH": sr + "/lib"}
    d = digest(src) + sr
    if not (stamp("driver", d) and os.path.exists(drv)):
        rc, out = run(["rustc", "+nightly", "-O", "--edition", "2021", "-Awarnings", "-o", drv, src])
        if rc != 0:
            raise ToolError("extractor does not build:\n" + out[-4000:])
        set_stamp("driver", d)
    d2 = d + digest(mod)
    mj = os.path.join(BUILD, "models.json")
    if not (stamp("models", d2) and os.path.exists(mj)):
        e = dict(env, VERIF_CRATE="verif_models", VERIF_OUT=mj)
        rc, out = run([drv, "--crate-name", "verif_models", "--crate-type", "lib", "--edition", "2021", "-Zalways-encode-mir",
                       "-Awarnings", "--emit=metadata", "-o", os.path.join(BUILD, "libm.rmeta"), mod], e, BUILD)
        if rc != 0 or not os.path.exists(mj):
            raise ToolError("models do not build:\n" + out[-4000:])
        set_stamp("models", d2)
    return drv, mj, env


def source_copy(dst):
    """the crate as it is now, without its tests and benchmarks"""
    os.makedirs(dst)
    for n in os.listdir(REPO):
        if n in (".git", "target", "tests", "benches", "examples"):
            continue
        s = os.path.join(REPO, n)
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(dst, n))
        elif os.path.isfile(s):
            shutil.copy(s, os.path.join(dst, n))


def forget(tgt):
    """make cargo compile the crate itself again, but not its dependencies"""
    for sub in ("debug/build", "debug/.fingerprint"):
        d = os.path.join(tgt, sub)
        if os.path.isdir(d):
            for n in os.listdir(d):
                if n == "orx-concurrent-vec" or n.startswith("orx-concurrent-vec-"):
                    shutil.rmtree(os.path.join(d, n))


def extract(out, cfg="debug"):
    """type-check /repo's current source with the extractor; `cfg`: with or without debug assertions and overflow checks"""
    drv, mj, env = build_tools()
    tgt = os.path.join(BUILD, "target-" + cfg)
    flags = "-Zalways-encode-mir -Awarnings"
    if cfg == "release":
        flags += " -Cdebug-assertions=off -Coverflow-checks=off"
    forget(tgt)
    if os.path.exists(out):
        os.remove(out)
    e = dict(env, RUSTC_WORKSPACE_WRAPPER=drv, VERIF_CRATE=CRATE, VERIF_OUT=out, RUSTFLAGS=flags,
             CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0")
    cmd = ["cargo", "+nightly", "check", "--lib", "--offline", "--target-dir", tgt]
    if os.path.exists(os.path.join(REPO, "Cargo.lock")):
        cmd.append("--locked")
    rc, o = run(cmd, e, REPO)
    if rc == 0 and not os.path.exists(out):
        shutil.rmtree(tgt)
        rc, o = run(cmd, e, REPO)
    if rc != 0 or not os.path.exists(out):
        raise ToolError("the crate does not type-check:\n" + o[-4000:])
    return mj


def setup():
    with lock():
        build_tools()
        tmp = os.path.join(BUILD, "setup.json")
        extract(tmp)
        os.remove(tmp)


if __name__ == "__main__":
    setup()
