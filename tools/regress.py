#!/usr/bin/env python3
"""Reverts each fix: commit of /repo in a scratch clone and expects the property's quick check to exit 1."""
import subprocess, sys, os, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import design_text as T
W = "/tmp/regress"
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "3b539c6..HEAD"], stdout=subprocess.PIPE, text=True).stdout.strip().split("\n")
os.makedirs(W, exist_ok=True)
def one(l):
    h, m = l.split(" ", 1)
    p = [v for k, v in T.FIXPROP if k in m][0]
    d = "%s/%s" % (W, h)
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", d])
    r = subprocess.run(["git", "-C", d, "-c", "user.name=x", "-c", "user.email=x@x", "revert", "--no-edit", h], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: shutil.rmtree(d); return "%s %s CONFLICT %s" % (h, p, m)
    e = "%s/ev_%s" % (W, h)
    r = subprocess.run(["python3", "/verif/run.py", p, "--tier", "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, ROFL_REPO=d))
    shutil.rmtree(d)
    v = [x for x in r.stdout.split("\n") if "VIOLATION" in x]
    return "%s %s exit %d %s %s" % (h, p, r.returncode, v[:1], m) + ("" if r.returncode == 1 else "\n" + r.stdout[-600:])
with ThreadPoolExecutor(2) as ex:
    for x in ex.map(one, [l for l in log if " fix: " in l and (len(sys.argv) < 2 or any(a in l for a in sys.argv[1:]))]): print(x, flush=True)
