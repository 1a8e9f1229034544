#!/usr/bin/env python3
"""seed.py <batch.py> [id...]   plant, confirm and try bugs, in a scratch copy of /repo (/tmp/sc)
   seed.py --verify [id...]     confirm those already under /verif/seeded again, and run their checks
A batch defines S = [dict(id, prop, edits=[(file, old, new[, occurrence])], demo=C++ source, needs, breaks)].
A bug is kept when it builds, the stable tests pass, and its demonstration passes without it and fails with it."""
import json, os, re, subprocess, sys, shutil
SC, VP = "/tmp/sc", "/tmp/scvp"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
g++ -std=gnu++11 %s -w -DUSE_PTHREADS -Dkiss_fft_scalar=double -I. -Iext/kissfft -Iext/kissfft/tools -Iinclude -Iext/clapack/include -Iext/cblas/include "$d/demo.cpp" libqm-dsp.a -lpthread -o "$t/demo" || exit 1
cd "$t" && timeout %d ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def setup():
    if not os.path.isdir(SC): sh("cp -a /repo %s" % SC)
    sh("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f --detach FETCH_HEAD" % (SC, SC))
    os.makedirs(VP, exist_ok=True)
    for f in os.listdir("/opt/vp"):
        if os.path.isfile("/opt/vp/" + f):
            t = open("/opt/vp/" + f, errors="replace").read().replace("/repo", SC).replace("/opt/vp", VP)
            open(os.path.join(VP, f), "w").write(t)
def reset(): sh("git -C %s checkout -q -f -- ." % SC)
def build(): return sh("bash %s/build.sh" % VP).returncode == 0
BASE = json.load(open("/opt/vp/BASELINE.json"))
def names(x):
    if isinstance(x, dict):
        for k in ("passed", "tests", "stable", "pass"):
            if k in x: return set(x[k])
    return set(x)
def tests():
    sh("bash %s/test.sh /tmp/sc-out.json" % VP)
    r = json.load(open("/tmp/sc-out.json"))
    return sorted(names(BASE) - set(r["passed"]))
def demo(i):
    tmp = "/tmp/sc-demo"; shutil.rmtree(tmp, ignore_errors=True); shutil.copytree(os.path.join(SEEDED, i), tmp)
    r = sh("bash %s/demo.sh" % tmp, cwd=SC, timeout=320); return r.returncode, r.stdout[-400:]
def check(prop, tier="quick"):
    e = dict(os.environ, VERIF_SEED=os.environ.get("SEED", "1"), VERIF_REPO=SC, VERIF_BUILD="/tmp/scb", VERIF_EVIDENCE="/tmp/scb/ev", VERIF_REPLAYS="/tmp/scb/rp")
    r = sh("timeout 900 python3 %s/check.py %s %s" % (HERE, prop, tier), env=e)
    m = re.search(r"^FAIL (.*)", r.stdout, re.M)
    return r.returncode, (m.group(1)[:230] if m else r.stdout.strip().splitlines()[-1][:200] if r.stdout.strip() else "")
def trial(i, prop, patch):
    r = sh("git -C %s apply --check %s && git -C %s apply %s" % (SC, patch, SC, patch))
    if r.returncode: return "patch does not apply " + r.stdout
    if not build(): reset(); return "does not build"
    t = tests()
    if t: reset(); return "tests fail: %s" % t[:3]
    rc, out = demo(i)
    if rc == 0: reset(); return "demo passes with the bug: " + out
    cs = []
    for p in [prop] + [x for x in os.environ.get("ALSO", "").split() if x]:
        rc, msg = check(p); cs.append("%s %s %s" % (p, "CAUGHT" if rc == 1 else "rc=%d MISSED" % rc, msg))
    reset()
    return "ok, demo: %s | %s" % (out.strip().replace("\n", " / ")[-160:], " ; ".join(cs))
def main():
    setup(); a = sys.argv[1:]
    if a[0] == "--verify":
        ids = a[1:] or sorted(os.listdir(SEEDED)); reset(); build()
        for i in ids:
            m = json.load(open(os.path.join(SEEDED, i, "meta.json")))
            reset(); build(); rc, out = demo(i)
            if rc: print(i, "DEMO FAILS UNPATCHED", out); continue
            print(i, trial(i, m["property"], os.path.join(SEEDED, i, "patch.diff")), flush=True)
        return
    ns = {}; exec(open(a[0]).read(), ns)
    for s in ns["S"]:
        i = s["id"]
        if a[1:] and i not in a[1:]: continue
        reset(); ok = True
        for ed in s["edits"]:
            f, old, new = ed[:3]; n = ed[3] if len(ed) > 3 else 1
            b = open(os.path.join(SC, f), encoding="latin-1", newline="").read(); k = -1
            for _ in range(n):
                k = b.find(old, k + 1)
            if k < 0: print(i, "TEXT NOT FOUND in", f, ":", old[:60]); ok = False; break
            open(os.path.join(SC, f), "w", encoding="latin-1", newline="").write(b[:k] + new + b[k + len(old):])
        if not ok: reset(); continue
        d = os.path.join(SEEDED, i); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "patch.diff")
        open(p, "wb").write(subprocess.run(["git", "-C", SC, "diff"], stdout=subprocess.PIPE).stdout)
        open(os.path.join(d, "demo.cpp"), "w").write(s["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % (s.get("flags", "-O1"), s.get("time", 60)))
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        reset(); build(); rc, out = demo(i)
        if rc: print(i, "DEMO FAILS UNPATCHED", rc, out, flush=True); shutil.rmtree(d); continue
        r = trial(i, s["prop"], p)
        print(i, r, flush=True)
        if not r.startswith("ok"): shutil.rmtree(d)
main()
