#!/usr/bin/env python3
"""Decide one property:  python3 check.py C03 [quick|thorough]   (see DESIGN.md)

Builds the harness of the property together with the current sources of /repo, runs the
exhaustive exploration, writes evidence/<id>.json and exits 0 (held) or 1 (VIOLATION line).
"""
import atexit, tempfile, concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


def sources(dirs):
    out = []
    for d in dirs:
        p = os.path.join(SRC, d)
        if d.endswith(".cpp"):
            if os.path.exists(p):
                out.append(p)
            continue
        for f in sorted(glob.glob(os.path.join(p, "*.cpp"))):
            b = os.path.basename(f)
            if b.endswith("_test.cpp") or "test" in b:
                continue
            out.append(f)
    return out


def tree_hash(extra):
    h = hashlib.sha256()
    for root, ds, fs in sorted(os.walk(SRC)):
        ds.sort()
        for f in sorted(fs):
            if f.endswith((".h", ".cpp", ".hpp", ".cc", ".inc", ".ipp", ".def")):
                p = os.path.join(root, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    for e in extra:
        h.update(e.encode() if not os.path.isfile(e) else open(e, "rb").read())
    h.update(open(os.path.join(VERIF, "mc/inc/noextern.h"), "rb").read())
    for d in ("mc", "h"):
        for f in sorted(glob.glob(os.path.join(VERIF, d, "*.*"))):
            if d == "mc" or f.endswith(".h"):
                h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


OPTIONAL = ("fcgi.cpp",)  # need libraries that may be missing
FLAGS = {
    # instrumented for the controlled scheduler
    "mc": dict(cxx="g++", code=["-O1", "-g", "-fsanitize=thread", "-fno-omit-frame-pointer"], link=["-ldl", "-rdynamic"],
               engine=["mc/mc.cpp", "mc/net.cpp"], eng=["-O2", "-g"]),
    "seq": dict(cxx="g++", code=["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"], link=["-fsanitize=address", "-lpthread", "-ldl"],
                engine=["mc/seq.cpp"], eng=["-O2", "-g"]),
    "seqfast": dict(cxx="g++", code=["-O2", "-g"], link=["-lpthread", "-ldl"], engine=["mc/seq.cpp"], eng=["-O2", "-g"]),
}


def build(pid, cfg):
    f = FLAGS[cfg["kind"]]
    srcs = sources(cfg.get("src", []))
    harness = os.path.join(VERIF, cfg["harness"])
    key = tree_hash([harness, repr(cfg.get("flags", "")), repr(cfg.get("hflags", "")), repr(f), cfg["kind"], *cfg.get("src", [])])
    bdir = os.path.join(VERIF, "build", pid)
    exe = os.path.join(bdir, "run-" + key)
    if os.path.exists(exe):
        return exe
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    inc = ["-I" + SRC, "-I" + os.path.join(VERIF, "mc/inc/a/b"), "-I" + os.path.join(VERIF, "mc")]
    common = ["-w", "-D_REENTRANT", *cfg.get("flags", []), *inc]
    if cfg["kind"] == "mc":
        common += ["-include", os.path.join(VERIF, "mc/inc/noextern.h")]
    jobs = [(harness, ["-std=" + cfg.get("std", "gnu++17"), *f["code"], *common, *cfg.get("hflags", [])])]
    nh = len(jobs)
    jobs += [(s, ["-std=c++11", *f["code"], *common]) for s in srcs]
    nr = len(jobs)
    jobs += [(os.path.join(VERIF, s), ["-std=gnu++17", *f["eng"], "-w", "-I" + os.path.join(VERIF, "mc"), *cfg.get("eflags", [])]) for s in f["engine"]]

    def comp(i):
        s, fl = jobs[i]
        o = os.path.join(bdir, "%03d.o" % i)
        r = sh([f["cxx"], *fl, "-c", s, "-o", o])
        return o, s, r
    objs, lib, skipped = [], [], []
    with cf.ThreadPoolExecutor(8) as ex:
        for i, (o, s, r) in enumerate(ex.map(comp, range(len(jobs)))):
            if r.returncode != 0 and nh <= i < nr and os.path.basename(s) in OPTIONAL:
                skipped.append(s)
                continue
            if r.returncode != 0:
                sys.stderr.write("cannot compile %s\n%s\n" % (s, r.stderr[-6000:]))
                shutil.rmtree(bdir, ignore_errors=True)
                sys.exit(2)
            (lib if nh <= i < nr else objs).append(o)
    arch = []
    if lib:   # an archive: only what the harness needs is linked
        arch = [os.path.join(bdir, "lib.a")]
        sh(["ar", "rcs", arch[0], *lib])
    r = sh([f["cxx"], "-o", exe + ".tmp", *objs, *arch, *f["link"], *cfg.get("libs", [])])
    if r.returncode != 0:
        sys.stderr.write("cannot link %s\n%s\n" % (pid, r.stderr[-6000:]))
        shutil.rmtree(bdir, ignore_errors=True)
        sys.exit(2)
    os.rename(exe + ".tmp", exe)
    for o in objs + lib + arch:
        os.unlink(o)
    return exe


def known(pid):
    ks = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                ks[m.group(2)] = m.group(3)
    return ks


def kv(line):
    return dict(re.findall(r"(\w+)=(\S*)", line))


def main():
    pid = sys.argv[1]
    if pid == "setup":   # everything is built by the checks themselves; only make sure the tools are there
        for t in ("g++", "ar"):
            if not shutil.which(t):
                sys.exit("missing tool " + t)
        os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
        print("ready")
        return
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    cfg = CHECKS[pid]
    parts = cfg["parts"] if "parts" in cfg else [cfg]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ks = known(pid)
    rp = os.path.join(VERIF, "build", "replays", pid + ".txt")
    if os.path.exists(rp):
        os.unlink(rp)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    atexit.register(shutil.rmtree, scratch, True)
    env = dict(os.environ, TMPDIR=scratch, VERIF_KNOWN=",".join(ks), ASAN_OPTIONS="detect_leaks=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=3000:handle_abort=0:detect_stack_use_after_return=0",
               TZ="UTC", LANG="C", LC_ALL="C")
    viols, knownhit, scns, tasks, samples = [], [], [], [], []
    distinct = [0, 0]
    err = None
    for n, part in enumerate(parts):
        sub = pid if len(parts) == 1 else "%s.%d" % (pid, n)
        exe = build(sub, part)
        limit = part.get("limit", 600 if tier == "quick" else 5400)
        cmd = [exe, "--tier", tier, "--time", str(limit), *part.get("args", [])]
        if tier == "quick" and "hang" in part:
            cmd += ["--hang", str(part["hang"])]
        r = sh(cmd, env=env, cwd=os.path.join(VERIF, "build"))
        for l in r.stdout.splitlines():
            if l.startswith("VIOL "):
                viols.append((exe, part, l))
            elif l.startswith("SCN "):
                scns.append(l)
            elif l.startswith("TASK "):
                tasks.append(l)
            elif l.startswith("SAMPLE "):
                samples.append(l[7:])
            elif l.startswith("DISTINCT "):
                d = kv(l)
                distinct[0] += int(d["cases"])
                distinct[1] += int(d["observations"])
            elif l.startswith("KNOWN "):
                knownhit.append(kv(l)["key"])
            elif l.startswith("ENGINE-ERROR"):
                err = l
        if r.returncode not in (0, 1) and not err:
            err = "harness exit %s: %s %s" % (r.returncode, r.stdout[-500:], r.stderr[-1500:])
        if viols:
            break
    # confirm schedule violations by replaying them
    confirmed = []
    for exe, part, l in viols:
        if part["kind"] == "mc":
            m = re.match(r"VIOL scenario=(\S+) choices=(\S+) :: (.*)", l)
            if m and m.group(2) != "?":
                rr = sh([exe, "--tier", tier, "--scenario", m.group(1), "--replay", m.group(2)], env=env)
                if rr.returncode != 41:
                    rr = sh([exe, "--tier", tier, "--scenario", m.group(1), "--time", "300"], env=env)
                    if rr.returncode != 1:
                        err = "violation did not replay: " + l[:500]
                        continue
        confirmed.append((exe, part, l))
    wall = time.time() - t0
    cov = {}
    if scns:
        d = [kv(x) for x in scns]
        cov["states"] = sum(int(x["nodes"]) for x in d)
        cov["transitions"] = sum(int(x["steps"]) for x in d)
        cov["traces_validated_against_impl"] = sum(int(x["execs"]) for x in d)
        cov["scenarios"] = len(d)
        cov["bounds"] = sorted(set("preemptions<=%s early timeouts<=%s spurious wakeups<=%s faults<=%s" % (x["pb"], x["tb"], x["sb"], x["fb"]) for x in d))
        cov["max_choice_depth"] = max(int(x["maxdepth"]) for x in d)
        cov["learned_racing_access_sites"] = max(int(x["racy"]) for x in d)
        cov["distinct_outcomes"] = sum(int(x["outcomes"]) for x in d)
        samples += [x[4:320] for x in scns[:4]]
        cov["exhaustive"] = not any(x["capped"] == "1" for x in d)
    if tasks:
        d = [kv(x) for x in tasks]
        cov["evaluations"] = sum(int(x["cases"]) for x in d)
        cov["distinct_nontrivial"] = distinct[0]
        cov["transitions"] = cov.get("transitions", 0) + sum(int(x["ops"]) for x in d)
        cov["states"] = cov.get("states", 0) + distinct[1]
        cov["traces_validated_against_impl"] = cov.get("traces_validated_against_impl", 0) + sum(int(x["cases"]) for x in d)
        cov["tasks"] = {x["name"]: int(x["cases"]) for x in d}
        cov["exhaustive"] = cov.get("exhaustive", True) and not any(x["capped"] == "1" for x in d)
        cov["rule"] = cfg.get("rule", "every member of the stated finite space of inputs, operation sequences and fault positions is run on the real code and compared with the oracle; distinct cases are counted by hash of the case text, states by hash of the observed result")
    cov["samples"] = samples[:12] or ["none"]
    cov["explored"] = "the real code itself: every explored execution is an execution of the implementation"
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level=cfg.get("level", "model_checking"), coverage=cov, wall_s=round(wall, 2),
              assumptions=cfg.get("assumptions", []), violations=len(confirmed))
    if "states" not in cov:
        cov["states"] = 0
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fp:
        json.dump(ev, fp, indent=1, sort_keys=True)
        fp.write("\n")
    for k in sorted(set(knownhit)):
        print("KNOWN-FINDING: property=%s %s" % (pid, ks[k]))
    if confirmed:
        rd = os.path.join(VERIF, "build", "replays")
        os.makedirs(rd, exist_ok=True)
        exe, part, l = confirmed[0]
        p = os.path.join(rd, pid + ".txt")
        with open(p, "w") as fp:
            for exe, part, l in confirmed:
                fp.write(l + "\n")
                if part["kind"] == "mc":
                    m = re.match(r"VIOL scenario=(\S+) choices=(\S+)", l)
                    if m:
                        fp.write("  replay: %s --tier %s --scenario %s --replay '%s'\n" % (exe, tier, m.group(1), m.group(2)))
                else:
                    m = re.search(r"task=(\S+) part=(\d+)", l)
                    if m:
                        fp.write("  replay: %s --tier %s --task %s --part %s\n" % (exe, tier, m.group(1), m.group(2)))
        for exe, part, l in confirmed[:5]:
            print(l[:1200])
        print("VIOLATION property=%s replay=%s" % (pid, p))
        sys.exit(1)
    if err:
        sys.stderr.write(err + "\n")
        sys.exit(2)
    print("OK property=%s tier=%s wall=%.1fs %s" % (pid, tier, wall, {k: v for k, v in cov.items() if isinstance(v, (int, bool))}))


main()
