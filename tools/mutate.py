#!/usr/bin/env python3
"""python3 tools/mutate.py FILE.py [-t] [-w] [-k SUBSTR] : applies each mutant of FILE (a list MUTANTS) to a scratch copy of /repo and
reports which properties' analyses raise an alarm.  -t: also run the repository's stable tests.  -w: also run the witness programs.

A mutant: dict(id=, kind="bug"|"same", prop="C01", edits=[(file, old, new), ...]).  `old` must occur exactly once unless a 4th
component gives the number of the occurrence."""
import concurrent.futures as cf
import importlib.util
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.environ.get("MUT_DIR", "/tmp/mut")
PROPS = ["C%02d" % i for i in (*range(1, 25), 27, 28, 29, 30, 31, 32)]
NW = int(os.environ.get("MUT_WORKERS", "6"))
local = threading.local()
free = list(range(NW))
mu = threading.Lock()


def sh(cmd, cwd=None, env=None, timeout=600):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return 124, "timeout"


def worker():
    if not hasattr(local, "i"):
        with mu:
            local.i = free.pop()
        d = f"{ROOT}/w{local.i}"
        os.makedirs(d, exist_ok=True)
        if os.path.exists(d + "/repo"):
            shutil.rmtree(d + "/repo")
        sh(f"git clone -q /repo {d}/repo && cp /repo/Cargo.lock {d}/repo/")
        if not os.path.exists(d + "/build"):
            sh(f"cp -a {HERE}/../build {d}/build")
    return f"{ROOT}/w{local.i}"


def apply(repo, edits):
    for e in edits:
        f, old, new = e[:3]
        p = f"{repo}/src/{f}"
        s = open(p).read()
        n = s.count(old)
        if n == 0 and "\n" in old:  # blank and comment lines in between do not matter
            rx = r"\n(?:[ \t]*(?://[^\n]*)?\n)*".join(re.escape(x) for x in old.split("\n") if x.strip()) + ("\n" if old.endswith("\n") else "")
            hits = list(re.finditer(rx, s))
            if hits:
                old = hits[0].group(0)
                n = s.count(old)
        if len(e) > 3:
            parts = s.split(old)
            if e[3] >= n:
                return f"occurrence {e[3]} of {old!r} not in {f} ({n})"
            s = old.join(parts[:e[3] + 1]) + new + old.join(parts[e[3] + 1:])
        elif n != 1:
            return f"{old!r} occurs {n} times in {f}"
        else:
            s = s.replace(old, new)
        open(p, "w").write(s)
    return None


def tests(d):
    rc, o = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 4", cwd=d + "/repo",
               env={"CARGO_TARGET_DIR": d + "/tt", "CARGO_NET_OFFLINE": "true"}, timeout=120)
    fails = [ln for ln in o.splitlines() if ln.startswith("test ") and ln.rstrip().endswith("FAILED")]
    return rc, fails, o[-1500:]


def one(m, opt):
    d = worker()
    repo = d + "/repo"
    sh("git checkout -q -- . && git clean -fdq -e Cargo.lock", cwd=repo)
    if "patch" in m:
        rc, o = sh(f"git apply {m['patch']}", cwd=repo)
        err = o if rc else None
    else:
        err = apply(repo, m.get("edits", []))
    if err:
        return m, {"error": err}
    r = {}
    if "line" in m:
        f, n, old, new = m["line"]
        L = open(f"{repo}/src/{f}").read().split("\n")
        if L[n] != old:
            return m, {"error": "line differs"}
        if new.endswith("\0"):
            new = new[:-1]
            del L[n + 1]
        L[n] = new
        open(f"{repo}/src/{f}", "w").write("\n".join(L))
        r["src"] = f"{old.strip()}  ==>  {new.strip()}"
    if "-a" in opt:
        rc, o = sh("cargo +nightly check --lib --offline -q", cwd=repo, env={"CARGO_TARGET_DIR": d + "/tc", "RUSTFLAGS": "-Awarnings"}, timeout=120)
        if rc:
            return m, dict(r, dead="compile")
        rc, fails, o = tests(d)
        if rc:
            return m, dict(r, dead="tests")
    if "-t" in opt:
        rc, fails, o = tests(d)
        r["tests"] = "ok" if rc == 0 else ("FAIL " + "; ".join(fails[:5]) if fails else "FAIL " + o)
    rc, o = sh(f"python3 {HERE}/mutone.py {','.join(PROPS)} {'w' if '-w' in opt else ''}", env={"VERIF_REPO": repo, "VERIF_BUILD": d + "/build"})
    try:
        r.update(json.loads(o.strip().splitlines()[-1]))
    except Exception:
        r["error"] = o[-3000:]
    return m, r


def main():
    args = sys.argv[1:]
    opt = [a for a in args if a in ("-t", "-w", "-v", "-a")]
    key = args[args.index("-k") + 1] if "-k" in args else ""
    spec = importlib.util.spec_from_file_location("m", args[0])
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    ms = [m for m in mod.MUTANTS if key in m["id"]]
    bad = 0
    with cf.ThreadPoolExecutor(NW) as ex:
        for m, r in ex.map(lambda m: one(m, opt), ms):
            al = r.get("alarms", {})
            if "dead" in r:
                v = "dead"
            elif "error" in r:
                v = "ERROR"
            elif m["kind"] == "auto":
                v = "caught" if al else "SURVIVES"
            elif m["kind"] == "bug":
                v = "caught" if m["prop"] in al else ("OTHER" if al else "MISSED")
            else:
                v = "FALSE-ALARM" if al else "NO-ANSWER" if r.get("no_answer") else "quiet"
            if v not in ("caught", "quiet", "dead"):
                bad += 1
            na = {k: len(x) for k, x in r.get("no_answer", {}).items()}
            print(f"{v:12} {m['id']:40} {m.get('prop', ''):4} alarms={ {k: len(x) for k, x in al.items()} } tests={r.get('tests', '-')}"
                  + (f" no_answer={na}" if na else "") + f" und={ {k: sum(x.values()) for k, x in r.get('undecided', {}).items()} }", flush=True)
            if "src" in r and "dead" not in r:
                print("     ", r["src"])
            if "error" in r:
                print("    ", r["error"][-1500:])
            if v == "FALSE-ALARM" or "-v" in opt or v == "OTHER":
                for k, x in al.items():
                    for y in x[:4]:
                        print("      ", k, y)
                for k, x in r.get("no_answer", {}).items():
                    for y in x[:2]:
                        print("       NA", k, y)
    print("not as wanted:", bad, "of", len(ms))


if __name__ == "__main__":
    main()
