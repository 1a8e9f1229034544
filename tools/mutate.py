#!/usr/bin/env python3
"""mutate.py <out.jsonl> [files...]   mutation testing of the checks, in scratch copies of /repo (/tmp/mut)
Small random source changes; each is tried against the quick checks of the properties anchored in its file, then
C39 and C38.  What no check reports is written as a survivor, to be judged by hand (equivalent, or a gap)."""
import json, os, importlib.util, re, subprocess, sys, random, collections, hashlib, threading, queue, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.environ.get("MUTDIR", "/tmp/mut"); NW = int(os.environ.get("WORKERS", "8")); PER = float(os.environ.get("PER", "1")); SEED = int(os.environ.get("MSEED", "1"))
props = collections.defaultdict(list)
for l in open(HERE + "/properties.jsonl"):
    d = json.loads(l)
    for f in d["anchors"]["files"]: props[f].append(d["id"])
for f, h in list(props.items()):
    if f.endswith((".cpp", ".c")): props[re.sub(r"\.cp*$|\.c$", ".h", f)] = sorted(set(props.get(re.sub(r"\.cp*$|\.c$", ".h", f), []) + h))
props["maths/MathUtilities.h"] = ["C13", "C14", "C15"]; props["maths/MathAliases.h"] = ["C13"]; props["hmm/hmm.h"] = ["C31"]
for d in ("cblas", "clapack"):
    for f in os.listdir("/repo/ext/%s/src" % d): props["ext/%s/src/%s" % (d, f)] = ["C35"]
props["ext/kissfft/kiss_fft.c"] = ["C01", "C02"]; props["ext/kissfft/tools/kiss_fftr.c"] = ["C02"]; props["ext/kissfft/_kiss_fft_guts.h"] = ["C01", "C02"]
SKIP = re.compile(r"cerr|cout|#|fprintf|printf|^\s*(//|\*|/\*)|DEBUG|mexPrintf|endl|throw|assert")
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def code(text):
    "comment-free copy of the same length"
    t = re.sub(r"/\*.*?\*/", lambda m: re.sub(r"[^\n]", " ", m.group()), text, flags=re.S)
    t = re.sub(r"//[^\n]*", lambda m: " " * len(m.group()), t)
    for a in ("#ifdef _WIN32", "#ifdef DEBUG", "#else /* !USE_PTHREADS"):
        pass
    return t
OPS = [(r"<=", "<"), (r">=", ">"), (r"(?<![<>=!\-])<(?![<=])(?= )", "<="), (r"(?<![<>=!\-])>(?![>=])(?= )", ">="), (r"==", "!="), (r"!=", "=="),
       (r"&&", "||"), (r"\|\|", "&&"), (r"(?<= )\+(?= )", "-"), (r"(?<= )-(?= )", "+"), (r"(?<= )\*(?= )", "/"), (r"(?<= )/(?= )", "*"), (r"\+=", "-="), (r"-=", "+="), (r"\*=", "/="),
       (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\+\+(?=\w)", "--"), (r"\bbreak;", ";"), (r"\bcontinue;", ";")]
def mutants(f, text):
    t = code(text); out = []
    inwin = 0; pos = 0
    for line in t.split("\n"):
        if re.match(r"#ifdef (_WIN32|DEBUG)|#if(n?def)? .*DEBUG|#else /\* !USE_PTHREADS", line): inwin += 1
        elif inwin and re.match(r"#if", line): inwin += 1
        elif inwin and re.match(r"#else", line) and inwin == 1: inwin = 0
        elif inwin and re.match(r"#endif", line): inwin -= 1
        elif not inwin and not SKIP.search(line):
            for a, b in OPS:
                for m in re.finditer(a, line): out.append((pos + m.start(), pos + m.end(), b))
            for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", line): out.append((pos + m.start(), pos + m.end(), str(int(m.group()) + 1)))
            for m in re.finditer(r"(?<![\w.])(\d+\.\d*(e-?\d+)?)(?![\w])", line): v = float(m.group(1)); out.append((pos + m.start(), pos + m.end(), repr(v * 1.01 if v else 0.01)))
            m = re.match(r"^\s+([A-Za-z_][\w\[\]\.\->\+\- \*]*\s*([-+*/]?=)[^=;][^;{}]*;|[a-z_]\w*\([^;{}]*\);|delete[^;]*;|free\([^;]*;)\s*$", line)
            if m and not re.match(r"\s*(int|double|float|bool|size_t|const|std|vector|return|static)\b", line): out.append((pos, pos + len(line), ";"))
        pos += len(line) + 1
    return out
sys.path.insert(0, HERE); import check as chk
KS = [2, 3, 4, 6, 9, 13, 16, 24, 40, 64, 100, 200]
def rare(f, text):
    "mutants that only differ when some variable has a particular value or passes a bound (OPSET=rare)"
    t = code(text); h = re.sub(r"\.cp*$|\.c$", ".h", f); hdr = code(open("/repo/" + h, encoding="latin-1").read()) if h != f and os.path.isfile("/repo/" + h) else ""
    ids = lambda ty: set(re.findall(r"\b(?:" + ty + r")\s+([A-Za-z_]\w*)\b(?!\s*\()", t + "\n" + hdr))
    ints = ids("int|size_t|unsigned int|unsigned|long"); dbls = ids("double|float|T"); rnd = random.Random(SEED); out = []; pos = 0; inwin = 0
    for line in t.split("\n"):
        if re.match(r"#ifdef (_WIN32|DEBUG)|#if(n?def)? .*DEBUG|#else /\* !USE_PTHREADS", line): inwin += 1
        elif inwin and re.match(r"#if", line): inwin += 1
        elif inwin and re.match(r"#else", line) and inwin == 1: inwin = 0
        elif inwin and re.match(r"#endif", line): inwin -= 1
        elif not inwin and line.startswith(" ") and not SKIP.search(line):
            here = []
            for m in re.finditer(r"(?<![\w.>&+\-])([A-Za-z_]\w*)\b(?!\s*(\(|::|->|\.|\[|=[^=]|\+\+|--|[-+*/]=|\w|&|\*\s*\w+\s*[,)]))", line):
                x = m.group(1); k = rnd.choice(KS)
                if re.search(r"\b(int|size_t|unsigned|long|double|float|const|T|return)\s*[*&]?\s*$", line[:m.start()]) and not re.search(r"return\s*$", line[:m.start()]): continue
                if x in ints and x not in dbls: here.append(x); out.append((pos + m.start(), pos + m.end(), rnd.choice(["(%s > %d ? %s - 1 : %s)", "(%s > %d ? %s + 1 : %s)"]) % (x, k, x, x)))
                elif x in dbls and x not in ints: out.append((pos + m.start(), pos + m.end(), rnd.choice(["(%s < 0 ? -%s : %s)", "(%s > 100 ? 100 + 0 * %s : %s)", "(%s < 0.001 ? 0 * %s : %s)", "(%s == 0 ? 1e-3 + %s : %s)"]) % (x, x, x)))
            m = re.match(r"^(\s+)([A-Za-z_][\w\[\]\.\->\+\- \*]*\s*([-+*/]?=)[^=;][^;{}]*;|[a-z_]\w*\([^;{}]*\);)\s*$", line)
            if m and here and not re.match(r"\s*(int|double|float|bool|size_t|const|std|vector|return|static)\b", line): out.append((pos + len(m.group(1)), pos + len(m.group(1)), "if (%s <= %d) " % (rnd.choice(here), rnd.choice(KS))))
        pos += len(line) + 1
    return out
KC = [2, 4, 9, 20, 50]
def calls(f, text):
    "mutants that skip a method the k-th time it is called on an object (OPSET=calls)"
    t = code(text); out = []; rnd = random.Random(SEED)
    if not f.endswith(".cpp"): return out
    ctors = [m.end() for m in re.finditer(r"^(\w+)::\1\s*\([^{};]*\)[^{};]*\{", t, re.M)]
    for m in re.finditer(r"^(?:static )?([\w:<>]+(?:\s*[*&])?)\s+(?:\w+::)+(\w+)\s*\(([^{};]*)\)\s*(const)?\s*\{", t, re.M):
        ty = m.group(1).strip(); rv = {"void": "return;", "int": "return 0;", "double": "return 0;", "bool": "return false;", "float": "return 0;", "vector<double>": "return vector<double>();", "std::vector<double>": "return std::vector<double>();"}.get(ty)
        if not rv or re.search(r"MathUtilities::|Pitch::|Wavelet::|Thread|Mutex|Condition", m.group()) : continue
        for k in KC:
            ins = sorted([(c, " calls__.erase(this);") for c in ctors] + [(m.end(), " if (++calls__[this] == %d) %s" % (k, rv))]); s = text; d = 0
            for p, x in ins: s = s[:p + d] + x + s[p + d:]; d += len(x)
            out.append((0, len(text), "// %s fails at call %d\n#include <map>\nstatic std::map<const void *, int> calls__;\n" % (m.group(2), k) + s))
    return out
def memo(f, text):
    "mutants that keep a local value from the first call: per object in methods, for good elsewhere (OPSET=memo)"
    t = code(text); out = []; heads = [(m.start(), m.group(1)) for m in re.finditer(r"^(?:static |inline )?(?:[\w:<>]+[\s*&]+)?((?:\w+::)*~?\w+)\s*\([^{};]*\)[^{};]*\{", t, re.M)]
    ctors = [m.end() for m in re.finditer(r"^(\w+)::\1\s*\([^{};]*\)[^{};]*\{", t, re.M)]
    for m in re.finditer(r"^\s+(?:const )?(int|double|float|size_t|bool|unsigned int)\s+(\w+)\s*=\s*([^;,{}]+);", t, re.M):
        own = [n for a, n in heads if a < m.start()]
        if not own or re.fullmatch(r"\s*-?[\d.]+\s*", m.group(3)): continue
        cls = "::" in own[-1] and f.endswith(".cpp") and not re.match(r"MathUtilities|Pitch|Wavelet", own[-1])
        a, ty, x, e = m.start(1), m.group(1), m.group(2), m.group(3); new = "static %s %s = %s;" % (ty, x, e)
        if not cls: out.append((a, m.end(), new)); continue
        new = "if (!memo__.count(this)) memo__[this] = %s; %s %s = memo__[this];" % (e, ty, x)
        ins = sorted([(c, " memo__.erase(this);", c) for c in ctors] + [(a, new, m.end())]); s = ""; d = 0
        for b, w, c in ins: s += text[d:b] + w; d = c
        out.append((0, len(text), "// %s: %s kept\n#include <map>\nstatic std::map<const void *, %s> memo__;\n" % (own[-1], x, ty) + s + text[d:]))
    return out
def worker(w, q, out, lock):
    R = "%s/r%d" % (WORK, w); B = "%s/b%d" % (WORK, w)
    if not os.path.isdir(R): sh("cp -a /repo %s" % R)
    sh("git -C %s fetch -q /repo HEAD; git -C %s checkout -q -f --detach FETCH_HEAD" % (R, R))
    env = dict(os.environ, VERIF_REPO=R, VERIF_BUILD=B, VERIF_EVIDENCE=B + "/ev", VERIF_REPLAYS=B + "/rp", VERIF_JOBS=str(max(1, 8 // NW)), VERIF_SEED="1")
    sh("python3 -c \"import check; check.write_ninja(check.BUILD)\"", env=dict(env, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1"), cwd=HERE); sh("ninja -j %d -f %s/build.ninja %s" % (max(1, 8 // NW), B, " ".join("%s/%s/%s" % (B, fl, p) for fl in ("plain", "asan") for p in sorted({x for v in props.values() for x in v} - {"C38", "C39"}))))
    def obj(f):
        cc = "gcc" if f.endswith(".c") else "g++ -std=gnu++98"
        r = subprocess.run("cd %s && %s -w -O2 -DNDEBUG -DUSE_PTHREADS -DNO_BLAS_WRAP -DADD_ -Dkiss_fft_scalar=double -I. -Iext/kissfft -Iext/kissfft/tools -Iext/clapack/include -Iext/cblas/include -S -o - %s" % (R, cc, f), shell=True, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        return r.stdout if r.returncode == 0 else None
    while True:
        try: f, a, b, new = q.get_nowait()
        except queue.Empty: return
        path = os.path.join(R, f); orig = open(path, encoding="latin-1", newline="").read()
        o0 = None if f.endswith(".h") else obj(f)
        open(path, "w", encoding="latin-1", newline="").write(orig[:a] + new + orig[b:])
        ln = orig.count("\n", 0, a) + 1; src = orig.split("\n")[ln - 1]; mut = (orig[:a] + new + orig[b:]).split("\n")[ln - 1]
        res = "survived"; which = ""
        try:
            if not f.endswith(".h"):
                o1 = obj(f)
                if o1 is None: continue
                if o1 == o0: continue
            for fl, p in [("plain", x) for x in props[f] if x not in ("C38", "C39")] + [("asan", x) for x in props[f] if x not in ("C38", "C39")] + ([("asan", "C39"), ("plain", "C38")] if os.environ.get("DEEP") else []):
                r = sh("ninja -j %d -f %s/build.ninja %s/%s/%s" % (max(1, 8 // NW), B, B, fl, p))
                if r.returncode: res = "nobuild"; break
                cmd = "timeout 300 %s/%s/%s --prop %s --flavor %s --seed 1 --workers %d --cap 200 --mult %g --evidence %s/e.json --replay-dir %s --shrink-time 0 --timeout 8 %s" % (B, fl, p, p, fl, max(1, 8 // NW), chk.QUICK.get(p, 1), B, B, "--leak" if p == "C39" else "")
                r = sh(cmd, env=env)
                if r.returncode == 1: res = "killed"; m = re.search(r"^FAIL (.{0,160})", r.stdout, re.M); which = p + " " + (m.group(1) if m else ""); break
                if r.returncode not in (0, 1): res = "rc%d" % r.returncode; which = p + r.stdout[-200:]; break
        finally:
            open(path, "w", encoding="latin-1", newline="").write(orig)
        with lock:
            out.write(json.dumps(dict(file=f, line=ln, src=src.strip(), mut=mut.strip(), result=res, by=which)) + "\n"); out.flush()
def main():
    rnd = random.Random(SEED); files = sys.argv[2:] or sorted(f for f in props if os.path.isfile("/repo/" + f) and not f.startswith("ext"))
    todo = []
    for f in files:
        if not props[f] or not os.path.isfile("/repo/" + f): continue
        t = open("/repo/" + f, encoding="latin-1", newline="").read(); ms = {"rare": rare, "calls": calls, "memo": memo}.get(os.environ.get("OPSET"), mutants)(f, t); k = int(PER * (6 + t.count("\n") / 12.0))
        if "Wavelet" in f: k = int(10 * PER)
        if os.environ.get("OPSET") in ("calls", "memo"): k = len(ms) if PER >= 1 else int(PER * len(ms))
        for a, b, n in rnd.sample(ms, min(k, len(ms))): todo.append((f, a, b, n))
    rnd.shuffle(todo); q = queue.Queue(); [q.put(x) for x in todo]; print(len(todo), "mutants")
    os.makedirs(WORK, exist_ok=True); lock = threading.Lock(); out = open(sys.argv[1], "a")
    ts = [threading.Thread(target=worker, args=(w, q, out, lock)) for w in range(NW)]; [t.start() for t in ts]; [t.join() for t in ts]
main()
