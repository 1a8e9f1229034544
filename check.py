#!/usr/bin/env python3
"""check.py <property> [quick|thorough]      decide one property on /repo's current tree
   check.py <property> --replay <file>       re-run a replay file
   check.py --setup                          build everything once
Exit 0: held on everything explored; exit 1 + VIOLATION line: broken; 2: could not decide."""
import glob, json, os, re, subprocess, sys, time, shutil, threading

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
REPLAYS = os.environ.get("VERIF_REPLAYS", os.path.join(BUILD, "replays"))
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 4)))
KNOWN = os.path.join(HERE, "known_findings.txt")

DEFS = "-DUSE_PTHREADS -DNO_BLAS_WRAP -DADD_ -Dkiss_fft_scalar=double"
INCS = "-I{r} -I{r}/ext/kissfft -I{r}/ext/kissfft/tools -I{r}/ext/clapack/include -I{r}/ext/cblas/include"
COMMON = "-w -g1 -fPIC -ftrivial-auto-var-init=pattern -Wno-error=implicit-function-declaration -Wno-error=implicit-int -Wno-error=int-conversion"
SAN = "-fsanitize=address,undefined,float-cast-overflow -fno-sanitize=function,vptr,alignment -fno-sanitize-recover=all -fno-omit-frame-pointer"
FLAVORS = {
    # name: (cc, cxx, library flags, harness flags, link flags)
    "asan":  ("clang", "clang++", "-O1 " + SAN, "-O1 " + SAN, SAN),
    "plain": ("gcc", "g++", "-DNDEBUG -O3 -msse -msse2 -mfpmath=sse -ftree-vectorize", "-O2", ""),
    "vg":    ("gcc", "g++", "-O1 -ftrivial-auto-var-init=uninitialized", "-O1 -ftrivial-auto-var-init=uninitialized", ""),   # run under valgrind: uses of uninitialised memory
    "tsan":  ("clang", "clang++", "-O1 -fsanitize=thread", "-O1 -fsanitize=thread", "-fsanitize=thread"),
}
PROPS = {  # property: flavors and their share of the cores
    "C36": [("asan", 3), ("plain", 2), ("tsan", 3)],
    "C38": [("asan", 3), ("plain", 3), ("tsan", 2)],
    "C39": [("asan", 5), ("vg", 3)],
}
# the library's calls of these go to the thread checks' scheduler (threads.cpp)
WRAP = " ".join("-Wl,--wrap=" + f for f in "pthread_create pthread_join pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast gettimeofday clock_gettime".split())
LIMITS = {"C36": ["--timeout", "15", "--shrink-time", "40"]}
DEFAULT_FLAVORS = [("asan", 5), ("plain", 3)]
VGMULT = 0.03
# multiples of the per-sub case counts at the quick tier, chosen so that a check takes about ten seconds
QUICK = {"C01": 2, "C02": 4, "C03": 2, "C04": 8, "C05": 10, "C06": 20, "C07": 8, "C08": 20, "C09": 20, "C10": 1.5, "C11": 4, "C12": 3, "C13": 30, "C14": 30, "C15": 30, "C16": 20, "C17": 15, "C18": 5, "C19": 15, "C20": 8, "C21": 8, "C22": 3, "C23": 15, "C24": 0.8, "C25": 6, "C26": 12, "C27": 30, "C28": 30, "C29": 30, "C30": 20, "C31": 5, "C32": 15, "C33": 8, "C34": 40, "C35": 12, "C36": 6, "C37": 1, "C38": 1}

def lib_sources():
    """The library's own source list (from its makefile), as paths relative to REPO."""
    mk = os.path.join(HERE, "harness", "list.mk")
    out = subprocess.run(["make", "-s", "-f", mk, "list"], cwd=REPO, stdout=subprocess.PIPE, text=True).stdout.split()
    if not out:
        out = []
        for d in ("base", "dsp", "hmm", "maths", "thread", "ext"):
            for root, _, files in os.walk(os.path.join(REPO, d)):
                out += [os.path.relpath(os.path.join(root, f), REPO) for f in files if f.endswith((".c", ".cpp"))]
    return sorted(s for s in out if os.path.exists(os.path.join(REPO, s)))

def check_files():
    """property -> check source files that define sub-checks of it"""
    m = {}
    for f in sorted(glob.glob(os.path.join(HERE, "harness", "checks", "*.cpp"))):
        for p in set(re.findall(r"^SUBX?\(\s*([A-Z]\d+)\s*,", open(f).read(), re.M)):
            m.setdefault(p, []).append(f)
    allf = sorted({f for v in m.values() for f in v})
    m["C39"] = allf
    return m

def write_ninja(bdir):
    os.makedirs(bdir, exist_ok=True)
    L = ["ninja_required_version = 1.5", "builddir = %s" % bdir]
    cf = check_files()
    allchecks = sorted({f for v in cf.values() for f in v})
    srcs = lib_sources()
    for fl, (cc, cxx, lflags, hflags, lk) in FLAVORS.items():
        inc = INCS.format(r=REPO)
        L += ["rule cc_%s" % fl, "  command = %s %s %s %s %s -MMD -MF $out.d -c $in -o $out" % (cc, COMMON, DEFS, lflags, inc), "  depfile = $out.d", "  deps = gcc", "  description = CC[%s] $in" % fl]
        # the repository builds as C++98 with gcc, which takes some newer constructs that clang refuses; those files are compiled as C++11
        cmd = "%s -std=gnu++%%s %s %s %s %s -MMD -MF $out.d -c $in -o $out" % (cxx, COMMON, DEFS, lflags, inc)
        L += ["rule cxx_%s" % fl, "  command = %s 2>/dev/null || %s" % (cmd % "98", cmd % "11"), "  depfile = $out.d", "  deps = gcc", "  description = CXX[%s] $in" % fl]
        L += ["rule h_%s" % fl, "  command = %s -std=gnu++17 %s %s %s %s -I%s/harness -MMD -MF $out.d -c $in -o $out" % (cxx, COMMON, DEFS, hflags, inc, HERE), "  depfile = $out.d", "  deps = gcc", "  description = H[%s] $in" % fl]
        L += ["rule ar_%s" % fl, "  command = rm -f $out && ar crs $out $in", "rule ln_%s" % fl, "  command = %s %s -o $out $in $wrap -lpthread -lm" % (cxx, lk)]
        objs = []
        for s in srcs:
            o = "%s/%s/lib/%s.o" % (bdir, fl, s.replace("/", "_"))
            L.append("build %s: %s_%s %s/%s" % (o, "cc" if s.endswith(".c") else "cxx", fl, REPO, s))
            objs.append(o)
        lib = "%s/%s/libqm.a" % (bdir, fl)
        L.append("build %s: ar_%s %s" % (lib, fl, " ".join(objs)))
        ho = {}
        for f in allchecks + [os.path.join(HERE, "harness", "runner.cpp")]:
            o = "%s/%s/h/%s.o" % (bdir, fl, os.path.basename(f))
            L.append("build %s: h_%s %s" % (o, fl, f))
            ho[f] = o
        for p, files in cf.items():
            if fl == "vg": files = [f for f in files if os.path.basename(f) != "threads.cpp"]
            if not files: continue
            L.append("build %s/%s/%s: ln_%s %s %s %s" % (bdir, fl, p, fl, " ".join(ho[f] for f in files), ho[os.path.join(HERE, "harness", "runner.cpp")], lib))
            if any(os.path.basename(f) == "threads.cpp" for f in files): L.append("  wrap = " + WRAP)
    new = "\n".join(L) + "\n"
    path = os.path.join(bdir, "build.ninja")
    if not os.path.exists(path) or open(path).read() != new:
        open(path, "w").write(new)
    return path

def build(targets):
    nin = write_ninja(BUILD)
    r = subprocess.run(["ninja", "-f", nin, "-j", str(JOBS)] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-int(os.environ.get("VERIF_BUILDLOG", "6000")):])
        print("cannot build the library or the harness")
    return r.returncode == 0

VALGRIND = ["valgrind", "-q", "--leak-check=no", "--exit-on-first-error=yes", "--error-exitcode=98", "--max-stackframe=200000000", "--main-stacksize=67108864", "--num-callers=25"]
def runner(fl): return VALGRIND if fl == "vg" else []

def flavors(prop):
    return PROPS.get(prop, DEFAULT_FLAVORS)

def known_lines(prop):
    if not os.path.exists(KNOWN): return []
    return [l.strip() for l in open(KNOWN) if l.startswith("KNOWN-FINDING: property=%s " % prop)]

def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__); return 2
    if a[0] == "--setup":
        cf = check_files()
        return 0 if build(["%s/%s/%s" % (BUILD, f, p) for p in cf for f, _ in flavors(p)]) else 2
    prop = a[0]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER") or "quick"
    mult = None; only = []; replay = None; verbose = []
    k = 1
    while k < len(a):
        if a[k] in ("quick", "thorough"): tier = a[k]
        elif a[k] == "--replay": k += 1; replay = a[k]
        elif a[k] == "--seed": k += 1; seed = int(a[k])
        elif a[k] == "--mult": k += 1; mult = float(a[k])
        elif a[k] == "--only": k += 1; only = ["--only", a[k]]
        elif a[k] == "-v": verbose = ["--verbose"]
        k += 1
    t0 = time.time()
    fls = flavors(prop)
    if replay:
        txt = open(replay).read()
        fl = re.search(r"^flavor (\S+)", txt, re.M).group(1)
        if not build(["%s/%s/%s" % (BUILD, fl, prop)]): return 2
        return subprocess.run(runner(fl) + ["%s/%s/%s" % (BUILD, fl, prop), "--prop", prop, "--flavor", fl, "--replay", replay] + LIMITS.get(prop, [])).returncode
    if not build(["%s/%s/%s" % (BUILD, f, prop) for f, _ in fls]): return 2
    tb = time.time() - t0
    os.makedirs(EVID, exist_ok=True); os.makedirs(REPLAYS, exist_ok=True)
    cap = 420 if tier == "quick" else float(os.environ.get("VERIF_THOROUGH_S", "780"))
    if mult is None: mult = QUICK.get(prop, 1) * (1.0 if tier == "quick" else 60.0)
    tot = sum(w for _, w in fls)
    procs = []
    for f, w in fls:
        ev = os.path.join(BUILD, "ev-%s-%s.json" % (prop, f))
        if os.path.exists(ev): os.remove(ev)
        nw = max(1, round(JOBS * w / tot))
        cmd = runner(f) + ["%s/%s/%s" % (BUILD, f, prop), "--prop", prop, "--flavor", f, "--seed", str(seed), "--workers", str(nw),
               "--cap", str(cap), "--mult", str(mult * VGMULT if f == "vg" else mult), "--evidence", ev, "--replay-dir", REPLAYS] + only + verbose
        cmd += LIMITS.get(prop, [])
        if prop == "C39" and f != "vg": cmd.append("--leak")
        if f == "vg": cmd += ["--timeout", "600", "--shrink-time", "100"]
        procs.append((f, ev, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    frags, fails, broken = [], [], False
    outs = {}
    def reader(f, p): outs[f] = p.communicate()[0]
    ths = [threading.Thread(target=reader, args=(f, p)) for f, _, p in procs]
    for t in ths: t.start()
    # one flavor failing is enough: stop the others a little later
    tfail = None
    while any(p.poll() is None for _, _, p in procs):
        if any(p.poll() == 1 for _, _, p in procs):
            tfail = tfail or time.time()
            if time.time() - tfail > 2:
                for _, _, p in procs:
                    if p.poll() is None: p.kill()
        time.sleep(0.05)
    for t in ths: t.join()
    for f, ev, p in procs:
        sys.stdout.write(outs.get(f, ""))
        if p.returncode == 1 or p.returncode == 0:
            if os.path.exists(ev):
                frags.append(json.load(open(ev)))
                if p.returncode == 1: fails.append(frags[-1]["failure"])
            else: broken = True
        elif tfail is None: broken = True
    for l in known_lines(prop): print(l)
    samples = []; rules = []
    for fr in frags:
        for s in fr["subs"]:
            r = "%s: %s" % (s["sub"], s["rule"])
            if r not in rules: rules.append(r)
            for x in s["samples"][:1]:
                if len(samples) < 60: samples.append({"sub": s["sub"], "flavor": fr["flavor"], "case": x})
    e = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
         "coverage": {"evaluations": sum(f["evaluations"] for f in frags),
                      "distinct_nontrivial": sum(f["distinct_nontrivial"] for f in frags),
                      "rule": "Cases are drawn from seeded structured generators (every decision a recorded choice). A case counts when it is distinct by its choices and: " + " | ".join(rules),
                      "samples": samples or ["none"],
                      "per_flavor": [{k2: f[k2] for k2 in ("flavor", "evaluations", "distinct_nontrivial", "discarded", "truncated", "unreproduced", "wall", "max_case_s", "max_case")} for f in frags],
                      "per_sub": [{"flavor": f["flavor"], "sub": s["sub"], "evaluations": s["evaluations"], "nontrivial": s["nontrivial"]} for f in frags for s in f["subs"]],
                      "build_s": round(tb, 1)},
         "assumptions": ["floating-point results are compared with stated tolerances, not bit by bit, except where two runs of the same code on the same data are compared",
                         "inputs are finite and satisfy the documented preconditions"],
         "wall_s": round(time.time() - t0, 2), "violations": len(fails)}
    with open(os.path.join(EVID, prop + ".json"), "w") as fh: json.dump(e, fh, indent=1)
    if fails:
        for fl in fails: print("VIOLATION property=%s replay=%s" % (prop, fl["replay"]))
        return 1
    if broken:
        print("check %s gave no answer" % prop); return 2
    print("%s held on everything explored (%d cases, %.0f s)" % (prop, e["coverage"]["evaluations"], e["wall_s"]))
    return 0

if __name__ == "__main__":
    sys.exit(main())
