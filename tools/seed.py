#!/usr/bin/env python3
"""Confirm planted bugs in a scratch copy and run the check of their property against it.
   tools/seed.py [-n] ID...     (-n: skip build+tests)
"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/tmp/sr/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def prep():
    if not os.path.isdir(R):
        sh("mkdir -p /tmp/sr && cp -a /repo %s && rm -rf %s/build" % (R, R))
    for f in ("build.sh", "test.sh", "run_gtests.py"): open("/tmp/sr/" + f, "w").write(open("/opt/vp/" + f).read().replace("/repo", R).replace("/opt/vp/build.sh", "/tmp/sr/build.sh").replace("/opt/vp/run_gtests.py", "/tmp/sr/run_gtests.py"))
    if True:
        sh("mkdir -p %s/build" % R)
    sh("cd %s && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq src" % R)
def main():
    a = sys.argv[1:]; fast = "-n" in a; a = [x for x in a if x != "-n"]
    prep()
    for i in a:
        d = os.path.join(V, "seeded", i); m = json.load(open(d + "/meta.json")); out = []
        sh("git -C %s checkout -q -- . && git -C %s clean -fdq src" % (R, R))
        if not fast: 
            r = sh("bash /tmp/sr/build.sh"); r = sh("bash %s/demo.sh" % d, cwd=R); out.append("clean:%s" % ("ok" if r.returncode == 0 else "BAD " + r.stdout[-500:]))
        r = sh("git -C %s apply %s/patch.diff" % (R, d))
        if r.returncode: print(i, "APPLY", r.stdout); continue
        if not fast:
            r = sh("bash /tmp/sr/test.sh /tmp/sr/o.json"); o = json.load(open("/tmp/sr/o.json")); b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            miss = [t for t in b if t not in o["passed"]]; out.append("tests:%s" % ("ok" if not miss else "BAD %d %s" % (len(miss), miss[:3])))
            r = sh("bash %s/demo.sh" % d, cwd=R); out.append("demo:%s" % ("ok" if r.returncode else "BAD passes"))
        r = sh("VERIF_REPO=%s VERIF_TIER=quick VERIF_SEED=1 python3 %s/check.py %s quick" % (R, V, m["property"]))
        l = [x for x in r.stdout.splitlines() if x.startswith("VIOL")]
        out.append("check:%s" % ("caught " + (l[0][:150] if l else "") if r.returncode == 1 else "MISSED rc=%d %s" % (r.returncode, r.stdout[-300:])))
        print(i, m["property"], *out, flush=True)
        sh("git -C %s checkout -q -- . && git -C %s clean -fdq src" % (R, R))
main()
