#!/usr/bin/env python3
"""Writes DESIGN.md (prose of tools/design_text.py + the bounds read from the checks + the planted bugs)
and known_findings.json (the repaired defects)."""
import os, re, sys, json, glob, subprocess
D = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(D)
sys.path.insert(0, D)
from props import P
import design_text as T
def families(i):
    s = open("%s/checks/%s.cpp" % (V, i)).read()
    out = re.findall(r'^\s*MC_FAMILY\((\w+),\s*"((?:[^"\\]|\\.)*)"', s, re.M)
    out += re.findall(r'^\s*FAM\((\w+),.*?"((?:[^"\\]|\\.)*)"\)', s, re.M)
    return [(a, b.replace('\\"', '"')) for a, b in out]
def quick(i): return int((re.findall(r"^// QUICK: (\d)", open("%s/checks/%s.cpp" % (V, i)).read(), re.M) or [0])[0])
o = [T.HEAD]
o.append("\n## 3. Properties\n")
for p in P:
    if p["id"] not in T.ORACLE: sys.exit("no oracle text for " + p["id"])
    o.append("### %s %s\n" % (p["id"], p["title"]))
    o.append("*Specified*: " + p["statement"] + "\n")
    o.append("*Oracle*: " + T.ORACLE[p["id"]] + "\n")
    o.append("*Enumerated* (quick tier: bound level %d):\n" % quick(p["id"]))
    o += ["- `%s`: %s" % f for f in families(p["id"])]
    o.append("\n*Why the tests cannot*: " + p["why"].split("settle it: ")[-1] + " The space is: " + p["text"] + ".")
    o.append("*Strength*: " + p["note"] + "\n")
o.append(T.MID)
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "3b539c6..HEAD"], stdout=subprocess.PIPE, text=True).stdout.strip().split("\n")
known = []
o.append("\n## 6. Defects found and repaired\n\nEach is one commit in /repo; reverting it alone makes the check of the property exit 1 (confirmed with tools/regress.py; two repairs, 8c538fb and 71c9214, make members usable that did not compile, so that without them the harness does not build, and two, b1098e4 and 050100a, cannot be reverted without a later one).\n")
o.append("| property | commit | what failed |\n|---|---|---|")
for l in log:
    h, m = l.split(" ", 1)
    if not m.startswith("fix: "): continue
    m = m[5:]
    pr = [v for k, v in T.FIXPROP if k in m]
    if not pr: sys.exit("no property for " + m)
    o.append("| %s | %s | %s |" % (pr[0], h, m))
    known.append("fixed: property=%s %s %s" % (pr[0], h, m))
json.dump(known, open(V + "/known_findings.json", "w"), indent=1)
o.append("\n## 7. Planted bugs\n\nAll of them were confirmed (build, stable tests pass, demo 0 / nonzero) and are caught by the quick check of their property, unless said otherwise. \"First missed\" marks those that made me extend a check.\n")
o.append("| planted bug | property | needs | caught |\n|---|---|---|---|")
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); n = os.path.basename(os.path.dirname(f))
    o.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"], T.MISSED.get(n, "yes")))
o.append(T.TAIL)
open(V + "/DESIGN.md", "w").write("\n".join(o) + "\n")
print("DESIGN.md", len(known), "fixed")
