#!/usr/bin/env python3
"""Confirm planted bugs: plant.py ID [--check]

Applies seeded/ID/patch.diff to /repo, builds, runs the stable tests and the demo, optionally the
check of the property, and undoes the patch.  Prints one line per bug."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"

def sh(cmd, cwd=R, t=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
    return p.returncode, p.stdout + p.stderr

def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    check = "--check" in sys.argv
    notest = "--notest" in sys.argv
    for i in args:
        d = f"{V}/seeded/{i}"
        meta = json.load(open(f"{d}/meta.json"))
        assert sh("git status --porcelain")[1] == "", "/repo not clean"
        r0, o0 = sh(f"bash {d}/demo.sh")
        rc, o = sh(f"git apply {d}/patch.diff")
        if rc:
            print(i, "PATCH DOES NOT APPLY", o); continue
        try:
            sh("bash /opt/vp/build.sh")
            tests = "skipped"
            if not notest:
                _, o = sh("bash /opt/vp/test.sh /tmp/plant.json")
                tests = o.strip().splitlines()[-1]
            r1, o1 = sh(f"bash {d}/demo.sh")
            res = ""
            if check:
                t = time.time()
                rc, o = sh(f"VERIF_SEED=1 VERIF_TIER=quick ./check {meta['property']}", V)
                hit = f"VIOLATION property={meta['property']}" in o
                res = f"check rc={rc} hit={hit} {time.time()-t:.0f}s " + next((l for l in o.splitlines() if l.startswith("---")), "")[:140]
        finally:
            sh("git checkout -- ."); sh("bash /opt/vp/build.sh")
        print(f"{i} [{meta['property']}] demo clean={r0} patched={r1} tests={tests} {res}", flush=True)
        if r0: print(o0[-500:])
        if not r1: print("DEMO DID NOT FAIL", o1[-300:])

main()
