"""mk(id, property, [(file, old, new)...], needs, breaks, demo_cpp, srcs): write seeded/<id>/."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/sr/mk"
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def fresh():
    if not os.path.isdir(W): os.makedirs("/tmp/sr", exist_ok=True); sh("git clone -q /repo " + W)
    sh("cd %s && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq" % W)
CONC = "src/concurrent/*.cpp src/system/*.cpp"
DEMO = """#!/bin/bash
# run in the repository's root; exit 0: the property holds for the demonstrated case
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
srcs=$(ls %(srcs)s 2>/dev/null | grep -v test)
g++ -std=c++11 -w -O1 %(flags)s -D_REENTRANT -Isrc "$d/demo.cpp" $srcs -o "$t/demo" -lpthread -ldl || exit 2
cd "$t" && timeout %(limit)d ./demo
"""
fresh()
def mk(id, prop, edits, needs, breaks, demo, srcs=CONC, flags="", limit=60):
    sh("git -C %s checkout -q -- ." % W)
    for f, old, new in edits:
        p = os.path.join(W, f); s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(sh("git -C %s diff" % W).stdout)
    open(d + "/demo.cpp", "w").write(demo.strip() + "\n")
    open(d + "/demo.sh", "w").write(DEMO % dict(srcs=srcs, flags=flags, limit=limit))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    sh("git -C %s checkout -q -- ." % W)
