#!/usr/bin/env python3
"""Builds one check from /repo's working tree and runs it.

  run.py ID [--tier quick|thorough] [--only FAMILY]   decide a property
  run.py ID --replay FILE                             re-execute a recorded violation
  run.py --prebuild                                   build all (setup_cmd; only an optimisation)

Exit 0: held on everything explored; 1: VIOLATION line; 2: the check itself is broken.
"""
import sys, os, re, json, time, hashlib, subprocess, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ROFL_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
CXX = "g++"
BASE = ["-std=c++17", "-D_GLIBCXX_ASSERTIONS", "-w", "-pthread"]
INC = ["-I" + os.path.join(REPO, d, "include") for d in ("common", "geometry", "pcl")] + ["-I/usr/include/eigen3"]
PCL = ["-I/usr/include/pcl-1.14", "-I/usr/include/vtk-9.1"]
FLAVOUR = {
    "asan": ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address"],
    "fast": ["-O2"],
}


def sha(parts):
    h = hashlib.sha256()
    for p in parts:
        b = p if isinstance(p, bytes) else str(p).encode()
        h.update(b + b"\0")
    return h.hexdigest()[:20]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def options(src):
    o = {"libs": [], "flavour": "asan", "flags": [], "link": []}
    for m in re.finditer(r"^// (LIBS|FLAVOUR|FLAGS|LINK): *(.*)$", open(src).read(), re.M):
        k = m.group(1).lower()
        o[k] = m.group(2).strip() if k == "flavour" else m.group(2).split()
    return o


def pre(cmd):
    """Hash of a preprocessed translation unit (without line markers) and its flags, None if it fails."""
    p = subprocess.run([x for x in cmd if x != "-c"] + ["-E", "-P"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return (sha([p.stdout, cmd]), "") if p.returncode == 0 else (None, p.stdout.decode(errors="replace"))


def build(ids):
    """Returns {id: (binary, None) or (None, log)}"""
    os.makedirs(BUILD, exist_ok=True)
    units, plan = {}, {}

    def unit(name, cmd):
        units[name] = cmd
        return name

    for i in ids:
        src = os.path.join(VERIF, "checks", i + ".cpp")
        o = options(src)
        fl = BASE + FLAVOUR[o["flavour"]]
        libs = []
        for lib in reversed(o["libs"]):
            libs.append((lib, [unit((c, o["flavour"]), [CXX] + fl + ["-fPIC"] + INC + (PCL if lib == "pcl" else []) + ["-c", c])
                               for c in sorted(glob.glob(os.path.join(REPO, lib, "src", "*.cpp")))]))
        h = unit((src, o["flavour"]), [CXX] + fl + o["flags"] + INC + (PCL if "pcl" in o["libs"] else []) + ["-I" + os.path.join(VERIF, "mc"), "-DMC_ID=\"%s\"" % i, "-c", src])
        plan[i] = (o, fl, libs, h)

    def one(it):
        name, cmd = it
        key, log = pre(cmd)
        if not key:
            return name, None, log
        ob = os.path.join(BUILD, "%s-%s.o" % (os.path.basename(name[0])[:-4], key))
        if not os.path.exists(ob):
            tmp = "%s.%d.tmp" % (ob, os.getpid())
            rc, log = sh(cmd + ["-o", tmp])
            if rc:
                return name, None, log
            os.replace(tmp, ob)
        return name, ob, ""

    def link(out, cmd):
        if os.path.exists(out):
            return None
        tmp = "%s.%d.tmp" % (out, os.getpid())
        rc, log = sh(cmd + ["-o", tmp])
        if rc:
            return log
        os.replace(tmp, out)
        return None

    with ThreadPoolExecutor(os.cpu_count()) as ex:
        objs = {n: (ob, log) for n, ob, log in ex.map(one, units.items())}

    def finish(i):
        o, fl, libs, h = plan[i]
        bad = [objs[u][1] for u in [h] + [x for l in libs for x in l[1]] if not objs[u][0]]
        if bad:
            return i, (None, "\n".join(bad))
        args = []
        for lib, us in libs:  # one shared object per library, as in the project's own build
            obs = [objs[u][0] for u in us]
            so = os.path.join(BUILD, "lib%s-%s.so" % (lib, sha(obs + fl)))
            log = link(so, [CXX] + fl + ["-shared"] + obs)
            if log is not None:
                return i, (None, log)
            args.append(so)
        binp = os.path.join(BUILD, "%s-%s" % (i, sha([objs[h][0]] + args + o["link"])))
        log = link(binp, [CXX] + fl + ["-rdynamic", objs[h][0]] + args + ["-Wl,-rpath," + BUILD] + o["link"] + ["-lboost_filesystem"])
        return i, ((None, log) if log is not None else (binp, None))

    return dict(finish(i) for i in ids)


def prune_cache():
    fs = []
    for f in os.listdir(BUILD) if os.path.isdir(BUILD) else []:
        try:
            st = os.stat(os.path.join(BUILD, f))
            fs.append((st.st_mtime, st.st_size, os.path.join(BUILD, f)))
        except OSError:  # another run is working here
            pass
    tot = sum(x[1] for x in fs)
    for m, n, f in sorted(fs):
        if tot < 600e6 or time.time() - m < 900:
            break
        tot -= n
        try:
            os.unlink(f)
        except OSError:
            pass


def main():
    a = sys.argv[1:]
    if a[0] == "--prebuild":
        ids = sorted(os.path.basename(p)[:-4] for p in glob.glob(os.path.join(VERIF, "checks", "C*.cpp")))
        r = build(ids)
        for i in ids:
            print(i, "built" if r[i][0] else "FAILED\n" + r[i][1][:3000])
        return 0 if all(r[i][0] for i in ids) else 2
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only, replay = None, None
    for k in range(1, len(a)):
        if a[k] == "--tier": tier = a[k + 1]
        if a[k] == "--only": only = a[k + 1]
        if a[k] == "--replay": replay = a[k + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    prune_cache()
    binp, log = build([pid])[pid]
    if not binp:
        print("build of check %s against %s failed:\n%s" % (pid, REPO, log[:6000]))
        return 2
    tb = time.time() - t0
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:handle_segv=1:detect_stack_use_after_return=0:malloc_context_size=8:hard_rss_limit_mb=3000:allocator_may_return_null=0"
    env["LC_ALL"] = "C"
    if replay:
        return subprocess.call([binp, "--replay", replay], env=env)
    out = os.path.join(BUILD, "%s-%d.json" % (pid, os.getpid()))
    m = re.search(r"^// QUICK: (\d)", open(os.path.join(VERIF, "checks", pid + ".cpp")).read(), re.M)
    level = 2 if tier == "thorough" else int(m.group(1)) if m else 0
    cmd = [binp, "--level", str(level), "--seed", str(seed), "--out", out] + (["--only", only] if only else [])
    rc = subprocess.call(cmd, env=env)
    try:
        res = json.load(open(out))
        os.unlink(out)
    except Exception as e:
        print("check %s ended with %d and no result: %s" % (pid, rc, e))
        return 2
    v = res.get("violation")
    fam = res["families"]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(f["distinct_states"] + f["inner"] for f in fam),
            "transitions": sum(f["transitions"] for f in fam),
            "traces_validated_against_impl": sum(f["executions"] + f["pruned"] for f in fam),
            "samples": [{"family": f["name"], "case": s} for f in fam for s in f["samples"]],
            "exhaustive": rc == 0 and not only,
            "states_means": "distinct abstract states recorded (64-bit hash) plus inputs enumerated by inner loops",
            "transitions_means": "operations applied to the real code and compared with the reference model",
            "traces_means": "complete choice sequences, each executed on the code built from the working tree",
            "bounds_level": level, "hash_table_saturated": res["saturated"],
            "families": [{k: f[k] for k in ("name", "what", "executions", "pruned", "transitions", "inner", "distinct_states", "max_choices", "wall_s")} for f in fam],
        },
        "assumptions": ["reference model in checks/%s.cpp" % pid, "bounds stated per family", "g++ and its sanitizer runtime"],
        "wall_s": round(time.time() - t0, 3), "violations": 1 if rc == 1 else 0,
    }
    ev["coverage"]["build_s"] = round(tb, 2)
    if rc == 1 and v:
        ev["coverage"]["violation"] = {"family": v["family"], "message": v["msg"], "case": v["desc"][:4000]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if rc == 1 and v:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.txt" % (pid, sha([v["family"], v["choices"]])[:10]))
        with open(path, "w") as f:
            f.write("family %s mode %s level %d worker %d n %d\n%s\n" % (
                v["family"], v["mode"], level, v["worker"], len(v["choices"]), " ".join(map(str, v["choices"]))))
            f.write("# message: %s\n# case: %s\n# re-run: python3 %s/run.py %s --replay %s\n" % (v["msg"].replace("\n", " "), v["desc"].replace("\n", " "), VERIF, pid, path))
        print("%s: %s\n  case: %s" % (v["family"], v["msg"], v["desc"][:2000]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if rc == 0:
        print("%s held: %d executions, %d transitions, %d states (%s, %.1f s, build %.1f s)" % (
            pid, ev["coverage"]["traces_validated_against_impl"], ev["coverage"]["transitions"], ev["coverage"]["states"], tier, ev["wall_s"], tb))
        return 0
    print("check %s could not decide: %s" % (pid, v and v["msg"]))
    return 2


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
