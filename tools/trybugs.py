#!/usr/bin/env python3
"""trybugs.py [-s SECONDS] NAME...: applies each planted bug to a scratch copy of /repo, builds the simulator from it and
runs the check of the bug's property (or -p IDS): which checks catch which changes."""
import json, os, subprocess, sys, argparse, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("-s", type=int, default=45)
ap.add_argument("-p", default="")
ap.add_argument("-d", default="")
ap.add_argument("-k", action="store_true")
ap.add_argument("names", nargs="*")
a = ap.parse_args()
S = os.environ.get("TB", "/tmp/tb"); B = S + "_build"
base = a.d or f"{V}/seeded"
if not os.path.isdir(S):
    subprocess.run(["git", "clone", "-q", "/repo", S], check=True)
subprocess.run(f"git -C {S} fetch -q /repo && git -C {S} reset -q --hard FETCH_HEAD", shell=True, check=True)
env = dict(os.environ, SIM_REPO=S, SIM_BUILD=B, SIM_EVIDENCE=S + "_ev")
for n in a.names or sorted(os.listdir(base)):
    m = json.load(open(f"{base}/{n}/meta.json"))
    subprocess.run(["git", "-C", S, "checkout", "-q", "--", "."], check=True)
    subprocess.run(["git", "-C", S, "apply", f"{base}/{n}/patch.diff"], check=True)
    r = subprocess.run(["python3", f"{V}/sim/build.py"], env=env, capture_output=True, text=True)
    if r.returncode: print(n, "BUILD FAILED", r.stdout[-2000:], r.stderr[-2000:]); continue
    for p in (a.p.split(",") if a.p else [m["property"]]):
        r = subprocess.run(["python3", f"{V}/check.py", p, "--seconds", str(a.s)] + (["--keep-going"] if a.k else []), env=env, capture_output=True, text=True)
        out = [l for l in (r.stdout + r.stderr).splitlines() if "VIOLATION" in l or "Error" in l or " seed " in l]
        if r.returncode not in (0, 1): out = (r.stdout + r.stderr).splitlines()[-3:]
        print(f"{n}: {p} exit {r.returncode} {' / '.join(out)[:400]}", flush=True)
subprocess.run(["git", "-C", S, "checkout", "-q", "--", "."], check=True)
