#!/usr/bin/env python3
"""Turns the entries of tools/bugs*.py into seeded/<id>/ and tries them in scratch copies of /repo.

  plant.py [NAME...]     (default: every entry without seeded/<NAME>/meta.json)

Each entry is confirmed as the task asks (patch touches original lines only, builds, stable tests pass,
demo 0 on the unchanged tree and nonzero with the patch); then the property's quick check is run on it.
Results go to /tmp/plant/results.json. Entries that are not confirmed are not kept; with ANY in the
environment, entries on lines of our own repairs are tried too, and not kept.
"""
import sys, os, json, subprocess, shutil, glob, importlib.util, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = "/tmp/plant"
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
ARGS = {"common/test_morton_functions": ["-test", "split"], "common/test_io": ["-dir", "/repo/common/app"]}
PRE = '#include <cstdio>\n#include <cstdlib>\n#include <iostream>\n#include <sstream>\n#include <vector>\n#include <string>\n#include <algorithm>\n#include <cmath>\n#include <limits>\n#include <set>\n#include <map>\n#include <deque>\n#include <array>\n#include <iterator>\n#include <numeric>\n#include <functional>\n#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED line %d: %s\\n", __LINE__, #c); exit(1); } } while (0)\n'
SH = '''#!/bin/bash
# Builds demo.cpp against the sources of the current directory (the repository) and runs it.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -I. -Icommon/include -Igeometry/include -Ipcl/include -I/usr/include/eigen3 %s "$D/demo.cpp" %s -o "$T/demo" -lboost_filesystem -pthread -Wl,-z,muldefs || exit 2
cd "$T" && timeout 120 ./demo > "$T/out.txt"
'''
SRC = {"": "", "common": "common/src/*.cpp", "geometry": "geometry/src/{base_geometry2,correspondence_graph_association,gis,hough_line_detector,hough_plane_detector}.cpp common/src/*.cpp"}
BUGS = []
def bug(name, prop, needs, breaks, edits, demo, src="common", flags="", files=None):
    BUGS.append(dict(name=name, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, src=src, flags=flags, files=files or {}))

def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def copy(n):
    d = "%s/r%d" % (W, n)
    if not os.path.exists(d):
        subprocess.check_call(["git", "clone", "-q", "/repo", d])
        r = run(["cmake", "-S", d, "-B", d + "/_build", "-G", "Ninja", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON"], env=dict(os.environ, CC="gcc", CXX="g++"))
        assert r.returncode == 0, r.stdout
        r = run(["ninja", "-C", d + "/_build"]); assert r.returncode == 0, r.stdout
    else:
        subprocess.check_call(["git", "-C", d, "checkout", "-q", "--", "."])
        subprocess.check_call(["git", "-C", d, "pull", "-q"])
    return d

def original(d, edits):
    for f, old, new in edits:
        base = subprocess.run(["git", "-C", d, "show", "3b539c6:" + f], stdout=subprocess.PIPE, text=True).stdout
        bl = set(x.strip() for x in base.split("\n"))
        removed = [x.strip() for x in old.split("\n") if x.strip() and x.strip() not in [y.strip() for y in new.split("\n")]]
        bad = [x for x in removed if not any(x in y for y in bl)]
        if bad: return "not original: %s" % bad
    return None

def one(b, d, check=True):
    res = {"name": b["name"], "prop": b["prop"]}
    sd = "%s/seeded/%s" % (V, b["name"]); td = "%s/s_%s" % (W, b["name"])
    shutil.rmtree(td, ignore_errors=True); os.makedirs(td)
    subprocess.check_call(["git", "-C", d, "checkout", "-q", "--", "."])
    e = original(d, b["edits"])
    loose = e is not None and "ANY" in os.environ   # tried, not kept
    if e and not loose: res["error"] = e; return res
    src = SRC[b["src"]]
    open(td + "/demo.sh", "w").write(SH % (b["flags"], src)); os.chmod(td + "/demo.sh", 0o755)
    open(td + "/demo.cpp", "w").write(PRE + b["demo"].lstrip("\n"))
    for k, v in b["files"].items(): open(td + "/" + k, "w").write(v)
    r = run(["bash", td + "/demo.sh"], cwd=d)
    if r.returncode: res["error"] = "demo fails on the unchanged tree: " + r.stdout[-1500:]; return res
    for f, old, new in b["edits"]:
        s = open(d + "/" + f).read()
        if s.count(old) != 1: res["error"] = "edit matches %d times: %s" % (s.count(old), old); return res
        open(d + "/" + f, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", d, "diff"], stdout=subprocess.PIPE).stdout
    open(td + "/patch.diff", "wb").write(diff)
    r = run(["bash", td + "/demo.sh"], cwd=d)
    if r.returncode == 0: res["error"] = "demo passes with the patch"; return res
    if "FAILED" not in r.stdout: res["note"] = "demo: " + r.stdout[-300:]
    r = run(["ninja", "-C", d + "/_build"])
    if r.returncode: res["error"] = "does not build: " + r.stdout[-1500:]; return res
    for t in STABLE:
        try:
            r = run([d + "/_build/" + t] + ARGS.get(t, []), cwd=td, timeout=30)
            if r.returncode: res["error"] = "stable test fails: " + t; return res
        except subprocess.TimeoutExpired:
            res["error"] = "stable test hangs: " + t; return res
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(td + "/meta.json", "w"), indent=1)
    if not loose: shutil.rmtree(sd, ignore_errors=True); os.makedirs(sd)
    for f in [] if loose else ["patch.diff", "demo.sh", "demo.cpp", "meta.json"] + list(b["files"]): shutil.copy(td + "/" + f, sd)
    if not loose: res["kept"] = True
    if check:
        r = run([sys.executable, V + "/run.py", b["prop"]], env=dict(os.environ, ROFL_REPO=d))
        res["rc"] = r.returncode; res["out"] = r.stdout[-700:]
    return res

def main():
    for f in sorted(glob.glob(V + "/tools/bugs*.py")):
        exec(compile(open(f).read(), f, "exec"), {"bug": bug})
    names = sys.argv[1:]
    todo = [b for b in BUGS if (b["name"] in names if names else not os.path.exists("%s/seeded/%s/meta.json" % (V, b["name"])))]
    os.makedirs(W, exist_ok=True)
    n = min(4, len(todo)) or 1
    with ThreadPoolExecutor(n) as ex: dirs = list(ex.map(copy, range(n)))
    lock = threading.Lock(); free = dirs[:]
    def work(b):
        with lock: d = free.pop()
        try: r = one(b, d)
        except Exception as e: r = {"name": b["name"], "error": repr(e)}
        finally:
            with lock: free.append(d)
        print(r["name"], r.get("prop"), "ERROR " + r["error"] if "error" in r else "caught" if r.get("rc") == 1 else "MISSED rc=%s %s" % (r.get("rc"), r.get("out")), r.get("note", ""), flush=True)
        if r.get("rc") == 1: print("    " + r["out"].strip().split("\n")[0][:200])
        return r
    with ThreadPoolExecutor(n) as ex: R = list(ex.map(work, todo))
    p = W + "/results.json"
    old = json.load(open(p)) if os.path.exists(p) else {}
    for r in R: old[r["name"]] = r
    json.dump(old, open(p, "w"), indent=1)
    print("%d tried, %d kept, %d caught" % (len(R), sum("kept" in r for r in R), sum(r.get("rc") == 1 for r in R)))
main()
