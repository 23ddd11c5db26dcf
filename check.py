#!/usr/bin/env python3
"""Decides one property by seeded deterministic simulation.

usage: check.py PROPERTY [quick|thorough] [--time SEC] [--repo DIR] [--build DIR] [--build-only]
Builds the simulator, the harnesses and the (instrumented) iceoryx sources of /repo's working tree, runs the search,
writes evidence/<PROPERTY>.json, prints VIOLATION / KNOWN-FINDING lines. Exit 0 held, 1 violated, other: error.
"""
import os, subprocess, sys, shutil, glob, argparse, fcntl, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + "/tools")
from plan import PLAN, COPIES


def sh(cmd, env=None):
    return subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build(repo, out, targets):
    os.makedirs(out, exist_ok=True)
    for unity in ("1", "0"):
        env = dict(os.environ, IOXSIM_UNITY=unity)
        g = sh([sys.executable, HERE + "/tools/gen_build.py", repo, out], env)
        if g.returncode:
            print(g.stdout)
            sys.exit(2)
        b = sh(["ninja", "-C", out, "-k", "0"] + targets, env)
        if b.returncode == 0:
            break
    else:
        print(b.stdout[-6000:])
        print("ERROR: /repo does not compile")
        sys.exit(2)


def instances(out, harness):
    os.makedirs(out + "/inst", exist_ok=True)
    src = "%s/%s.so" % (out, harness)
    st = os.stat(src)
    for i in range(COPIES(harness)):
        dst = "%s/inst/%s.%d.so" % (out, harness, i)
        if os.path.exists(dst):
            d = os.stat(dst)
            if d.st_size == st.st_size and d.st_mtime_ns == st.st_mtime_ns:
                continue
            os.unlink(dst)
        shutil.copy2(src, dst)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--time", type=float)
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--build", default=HERE + "/build")
    ap.add_argument("--evidence")
    ap.add_argument("--build-only", action="store_true")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 8)
    ap.add_argument("--scn")
    a = ap.parse_args()
    out = os.path.abspath(a.build)
    props = [a.prop] if a.prop != "all" else sorted(PLAN)
    hs = sorted({h for p in props for h in PLAN[p]["harness"]})
    os.makedirs(out, exist_ok=True)
    with open(out + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build(os.path.abspath(a.repo), out, ["ioxsim"] + [h + ".so" for h in hs])
        for h in hs:
            instances(out, h)
    if a.build_only:
        print("built", " ".join(hs))
        return 0
    rc = 0
    for p in props:
        pl = PLAN[p]
        t = a.time or pl["time"][a.tier]
        ev = a.evidence or HERE + "/evidence/%s.json" % p
        os.makedirs(os.path.dirname(ev), exist_ok=True)
        if os.path.exists(ev):
            os.unlink(ev)
        cmd = [out + "/ioxsim", "run", "--prop", p, "--scn", a.scn or pl["scn"], "--seed", str(a.seed), "--time", str(t), "--jobs", str(a.jobs), "--dir", out,
               "--out", out + "/out", "--evidence", ev, "--tier", a.tier, "--known", HERE + "/known_findings.txt"]
        sys.stdout.flush()
        r = subprocess.call(cmd)
        rc = max(rc, r)
    return rc


if __name__ == "__main__":
    sys.exit(main())
