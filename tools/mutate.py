#!/usr/bin/env python3
"""Systematic small changes to the library, to find what the checks do not see.

  mutate.py FILE ID[,ID...] [--from N] [--to N] [--step K] [--jobs J] [--types 1]

FILE is relative to the repository. Every mutant (one token or statement of a code line changed) is put in a
scratch copy under /tmp/mut and the quick checks ID... are run from a scratch copy of /verif until one raises an
alarm. With --types 1 only declared types are changed (narrower integers, float for double). Survivors are listed in /tmp/mut/survivors.txt: they are equivalent changes or gaps. No check uses this.
"""
import sys, os, re, subprocess, threading, shutil
from concurrent.futures import ThreadPoolExecutor
W = "/tmp/mut"
OPS = [(r"(?<![<>=!\-])<(?![<=>])(?=\s)", ["<="]), (r"<=", ["<"]), (r"(?<=\s)>(?![>=])(?=\s)", [">="]), (r">=", [">"]), (r"==", ["!="]), (r"!=", ["=="]),
       (r"(?<=\s)\+(?=\s)", ["-"]), (r"(?<=\s)-(?=\s)", ["+"]), (r"(?<=\s)\*(?=\s)", ["/"]), (r"(?<=\s)/(?=\s)", ["*"]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
       (r"\+\+", ["--"]), (r"(?<!-)--(?!-)", ["++"]), (r"\+=", ["-="]), (r"-=", ["+="]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
       (r"<<(?!=)(?=\s*\d)", [">>"]), (r">>(?=\s*\d)", ["<<"]), (r"(?<=\s)&(?=\s)", ["|"]), (r"(?<=\s)\|(?=\s)", ["&"]), (r"(?<=\s)\^(?=\s)", ["|"]),
       (r"std::min\b", ["std::max"]), (r"std::max\b", ["std::min"]), (r"\bfloor\b", ["ceil"]), (r"\bceil\b", ["floor"]), (r"\bsin\b", ["cos"]), (r"\bcos\b", ["sin"]),
       (r"(?<![\w.\"])\d+(?![\w.\"])", None), (r"\bupper_bound\b", ["lower_bound"]), (r"\blower_bound\b", ["upper_bound"]), (r"%(?=\s)", ["/"]),
       (r"\.first\b", [".second"]), (r"\.second\b", [".first"]), (r"(?<![\w.])-(?=[a-zA-Z(])", [""]), (r"(?<=[(!\s])!(?=[a-zA-Z(])", [""])]
TYPES = [(r"\bsize_t\b", ["unsigned char", "unsigned short", "int"]), (r"(?<!unsigned )\bint\b", ["signed char", "short"]), (r"\bdouble\b", ["float"]), (r"\bIndex\b(?= \w+ =)", ["short"]), (r"\bCounter\b", ["unsigned char", "unsigned short"]), (r"\bScalar\b(?= \w+\s*[=;,])", ["float", "int"]), (r"\bfloat\b", ["int"]), (r"\buint64_t\b", ["uint32_t"]), (r"\bint64_t\b", ["int32_t"]), (r"\buint32_t\b", ["uint16_t"])]
def mutants(path, types=False):
    L = open(path).read().split("\n"); out = []; comment = False
    for n, l in enumerate(L):
        s = l.strip()
        if comment:
            if "*/" in s: comment = False
            continue
        if s.startswith("/*"):
            if "*/" not in s: comment = True
            continue
        if not s or s.startswith(("//", "#", "*", "template", "using", "typedef", "namespace", "ROFL_", "std::cout", "std::cerr", "static_assert")): continue
        code = l.split("//")[0]
        for rx, rep in TYPES if types else OPS:
            for m in re.finditer(rx, code):
                if code[:m.start()].count('"') % 2: continue
                for r in (rep if rep is not None else [str(int(m.group()) + 1)]):
                    out.append((n, code[:m.start()] + r + code[m.end():], "%s -> %s" % (m.group(), r)))
        if not types and s.endswith(";") and not s.startswith(("return", "break", "}", "const ", "int ", "Scalar ", "double ", "float ", "size_t", "auto ", "for", "else", "case")) and ("(" in s or "=" in s) and not re.match(r"^[\w:<>,\s&*]+\s+\w+(\([^()]*\))?;$", s) and s.count("(") == s.count(")"):
            out.append((n, re.sub(r"\S.*", ";", code, count=1), "deleted"))
    return L, out
def main():
    a = sys.argv[1:]; f, ids = a[0], a[1].split(",")
    opt = {k[2:]: int(v) for k, v in zip(a[2::2], a[3::2])}
    jobs = opt.get("jobs", 3); os.makedirs(W, exist_ok=True)
    if not os.path.exists(W + "/verif"): shutil.copytree(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), W + "/verif", ignore=shutil.ignore_patterns("build", "seeded", "replays"))
    free = []
    for k in range(jobs):
        d = "%s/%s_%d" % (W, os.path.basename(f).replace(".", "_"), k)
        if not os.path.exists(d): subprocess.check_call(["git", "clone", "-q", "/repo", d])
        free.append(d)
    L, ms = mutants("/repo/" + f, opt.get("types")); ms = ms[opt.get("from", 0):opt.get("to", 10**9):opt.get("step", 1)]
    lock = threading.Lock(); cnt = {"killed": 0, "survived": 0, "nobuild": 0}
    def work(m):
        n, new, what = m
        with lock: d = free.pop()
        p = d + "/" + f
        try:
            M = L[:]; M[n] = new; open(p, "w").write("\n".join(M))
            res = "survived"
            for i in ids:
                q = subprocess.Popen(["nice", sys.executable, W + "/verif/run.py", i], env=dict(os.environ, ROFL_REPO=d), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
                try: rc = q.wait(400)
                except subprocess.TimeoutExpired:
                    os.killpg(q.pid, 9); q.wait(); rc = 1
                if rc == 1: res = "killed"; break
                if rc == 2: res = "nobuild"; break
        finally:
            open(p, "w").write("\n".join(L))
            with lock: free.append(d)
        with lock:
            cnt[res] += 1
            if res == "survived":
                with open(W + "/survivors.txt", "a") as o: o.write("%s:%d [%s] %s\n    %s\n    %s\n" % (f, n + 1, ",".join(ids), what, L[n].strip(), new.strip()))
    with ThreadPoolExecutor(jobs) as ex: list(ex.map(work, ms))
    with open(W + "/summary.txt", "a") as o: o.write("%s %s %d mutants %s\n" % (f, ids, len(ms), cnt))
    for d in free: shutil.rmtree(d)
main()
