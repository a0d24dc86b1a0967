#!/usr/bin/env python3
"""plant.py NAME [--tests]: tries /verif/seeded/NAME in a scratch copy of /repo mounted over it in a private mount
namespace: applies the patch, builds, runs the demonstration with and without it, and optionally the stable tests."""
import json, os, subprocess, sys
S = "/tmp/rs"
name = sys.argv[1]
V = os.environ.get("PLV", "/verif/seeded")
d = f"{V}/{name}"
INNER = r'''
set -u
ip link set lo up 2>/dev/null
mount --bind /tmp/rs /repo
cd /repo
git checkout -q -- . 
git apply %(d)s/patch.diff || { echo "PATCH FAILED"; exit 5; }
bash /opt/vp/build.sh > /tmp/plant.%(n)s.build 2>&1 || { echo "BUILD FAILED"; tail -30 /tmp/plant.%(n)s.build; git checkout -q -- .; exit 6; }
bash %(d)s/demo.sh > /tmp/plant.%(n)s.with 2>&1; echo "demo with patch: $?"; tail -3 /tmp/plant.%(n)s.with
if [ "%(t)s" = 1 ]; then bash /opt/vp/test.sh /tmp/plant.%(n)s.json > /tmp/plant.%(n)s.tests 2>&1; echo tests done; fi
git checkout -q -- .
'''
CLEAN = r'''
mount --bind /tmp/rs /repo
cd /repo
git checkout -q -- .
bash /opt/vp/build.sh > /tmp/plant.clean.build 2>&1 || echo BUILD FAILED
for x in %(names)s; do bash %(V)s/$x/demo.sh > /tmp/plant.$x.without 2>&1; echo "demo $x without patch: $?"; done
'''
def ns(script):
    return subprocess.run(["unshare", "-mnpf", "--mount-proc", "bash", "-c", script]).returncode
if name == "--clean":
    sys.exit(ns(CLEAN % dict(names=" ".join(sys.argv[2:]), V=V)))
r = ns(INNER % dict(d=d, n=name, t=int("--tests" in sys.argv)))
if "--tests" in sys.argv and r == 0:
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    got = json.load(open(f"/tmp/plant.{name}.json"))
    print("stable tests lost:", sorted(base - set(got["passed"]))[:5])
sys.exit(r)
