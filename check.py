#!/usr/bin/env python3
"""Deterministic simulation of fisx: builds the simulator from /repo's working
tree and decides one property by a seeded search over histories, schedules and
faults.

  check.py setup                     compile everything once
  check.py C07 [--tier thorough]     decide a property (exit 0 or 1)
  check.py replay FILE               run a replay file again (exit 1 when it still fails)
"""
import argparse, concurrent.futures, fcntl, hashlib, json, os, random, re, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SRC = os.path.join(REPO, "src")
SIM = os.path.join(HERE, "sim")
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
NCPU = max(1, os.cpu_count() or 1)

STD = ["-std=c++17", "-D_GLIBCXX_ASSERTIONS", '-DFISX_DATA_DIR="/sim/data"', "-I" + SRC]
ASAN = ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
# how the fisx sources are compiled; the simulator itself is compiled once
FLAVOURS = {
    "asan": {"sut": ASAN, "link": ["-fsanitize=address,undefined"]},
    "fast": {"sut": ["-O2"], "link": []},
    "zero": {"sut": ["-O1", "-ftrivial-auto-var-init=zero"], "link": [], "env": {"SIM_GARBAGE": "1"}},
    "pattern": {"sut": ["-O1", "-ftrivial-auto-var-init=pattern"], "link": [], "env": {"SIM_GARBAGE": "2"}},
    "sched": {"sut": ["-O1", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"], "sched": True,
              "link": ["-Wl,--wrap=" + f for f in ("memcpy", "memmove", "memset", "memcmp", "malloc", "calloc", "realloc",
                       "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_", "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_",
                       "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base")]},
}
# the same with the Python classes: "py" is how they are compiled
FLAVOURS["py"] = dict(FLAVOURS["asan"], py=["-g", "-O0", "-fsanitize=address"])
FLAVOURS["pyfast"] = dict(FLAVOURS["fast"], py=["-O1"])
# these see the allocator the sanitizer uses
PER_FLAVOUR = {"simalloc.cpp", "simfs.cpp"}
# the runtime of the instrumented sources
SCHED_ONLY = {"schedrt.cpp"}
# the embedded interpreter
PY_ONLY = {"w_python.cpp", "gen_py.cpp"}
PYTHON = "/opt/fisx/venv/bin/python"
CYTHON = os.path.join(os.path.dirname(PYTHON), "cython")
CYDIR = os.path.join(REPO, "python", "cython")
RULES = {
    "default": "one run is one generated plan (a sequence of operations with file system and allocation faults at chosen points) executed in a simulated process; it is non-trivial when it changed some object or asked more than three questions; distinct by the hash over all the answers",
    "C06": "one run is one program of 2 to 4 simulated threads executed under one seeded schedule; it is non-trivial when the schedule switched threads at least once in the middle of an operation; distinct by the hash of the sequence of scheduling decisions and answers",
    "C25": "one run is one generated sequence of calls on Python objects (with file system and allocation faults at chosen points) executed by the embedded interpreter, each call mirrored on C++ objects in the same state; it is non-trivial when it changed some object or asked more than three questions; distinct by the hash over all answers and exceptions",
}
STATES = {
    "default": "flags of an object (cache switches, cache fill, staleness, sizes classes) after each operation",
    "C25": "method called, how it ended (answered or class of the exception) and the kind of fault that fired in it",
}
QUICK_S = 60
THOROUGH_S = 1200


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, **kw)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree(d, ext):
    return sorted(os.path.join(d, n) for n in os.listdir(d) if n.endswith(ext))


class ToolError(Exception):
    pass


_python = []


def python():
    """What is needed to compile against the interpreter"""
    if not _python:
        r = sh([PYTHON, "-c", "import sysconfig as s; v = s.get_config_var; print(s.get_paths()['include']); print(v('LIBDIR')); print('python' + v('LDVERSION'))"])
        if r.returncode:
            raise ToolError("cannot run %s: %s" % (PYTHON, r.stderr[-500:]))
        _python.extend(r.stdout.split("\n")[:3])
    return _python


def cython():
    """The C++ source of the Python classes, made the way setup.py makes it, and the package around it"""
    pyx = sorted([p for p in tree(CYDIR, ".pyx") if os.path.basename(p) != "_fisx.pyx"], key=lambda p: os.path.basename(p).lower())
    pxd = tree(CYDIR, ".pxd")
    version = sh([CYTHON, "--version"])
    d = os.path.join(BUILD, "cy", digest(version.stdout, version.stderr, *[os.path.basename(p).encode() + read(p) for p in pyx + pxd]))
    cpp = os.path.join(d, "_fisx.cpp")
    if not os.path.exists(cpp):
        tmp = "%s.%d" % (d, os.getpid())
        os.makedirs(tmp, exist_ok=True)
        with open(os.path.join(tmp, "_fisx.pyx"), "wb") as f:
            f.write(b"".join(read(p) for p in pyx))
        r = sh([CYTHON, "--cplus", "-I", CYDIR, os.path.join(tmp, "_fisx.pyx"), "-o", os.path.join(tmp, "_fisx.cpp")])
        if r.returncode:
            raise ToolError("cannot translate the Python classes:\n%s" % r.stderr[-3000:])
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    mods = tree(os.path.join(REPO, "python", "fisx"), ".py")
    pkg = os.path.join(BUILD, "cy", "pkg-" + digest("1", *[os.path.basename(p).encode() + read(p) for p in mods]))
    if not os.path.exists(pkg):
        tmp = "%s.%d" % (pkg, os.getpid())
        os.makedirs(os.path.join(tmp, "fisx"), exist_ok=True)
        for p in mods:
            with open(os.path.join(tmp, "fisx", os.path.basename(p)), "wb") as f:
                # the directories setup.py fills in
                f.write(read(p).replace(b"DATA_DIR_FROM_SETUP", b"/sim/data").replace(b"DOC_DIR_FROM_SETUP", b"/sim/data"))
        try:
            os.rename(tmp, pkg)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return cpp, pkg


def build(flavours):
    """Returns {flavour: binary}. Objects are cached by the contents of everything they depend on."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    compiler = sh(["g++", "--version"]).stdout.split("\n")[0]
    repoh = digest(*[os.path.basename(p).encode() + read(p) for p in tree(SRC, ".h")])
    simh = digest(*[os.path.basename(p).encode() + read(p) for p in tree(SIM, ".h")])
    jobs, links = {}, {}

    def obj(src, flags, key):
        o = os.path.join(BUILD, "obj", digest(compiler, os.path.basename(src), read(src), *flags, key) + ".o")
        jobs[o] = (src, flags)
        return o

    for f in flavours:
        fl = FLAVOURS[f]
        objs = []
        pyflags = []
        if "py" in fl:
            cpp, fl["pkg"] = cython()
            pyflags = ["-isystem", python()[0]]
            objs.append(obj(cpp, STD + ["-w"] + pyflags + fl["py"], repoh))
        for s in tree(SRC, ".cpp"):
            objs.append(obj(s, STD + ["-w"] + fl["sut"], repoh))
        for s in tree(SIM, ".cpp"):
            b = os.path.basename(s)
            if b in SCHED_ONLY and not fl.get("sched"):
                continue
            if b in PY_ONLY and "py" not in fl:
                continue
            base = pyflags + ["-Wall", "-Wextra", "-I" + SIM, "-isystem", SRC]
            own = ASAN if (b in PER_FLAVOUR and f in ("asan", "py")) else ["-O1"]
            objs.append(obj(s, STD + base + own, repoh + simh))
        links[f] = (os.path.join(BUILD, "bin", f + "-" + digest(*objs, *fl["link"])), objs)
    todo = sorted([o for o in jobs if not os.path.exists(o)], key=lambda o: -os.path.getsize(jobs[o][0]))

    def compile1(o):
        src, flags = jobs[o]
        tmp = "%s.%d.tmp" % (o, os.getpid())
        r = sh(["g++"] + flags + ["-c", src, "-o", tmp])
        if r.returncode:
            raise ToolError("cannot compile %s:\n%s" % (src, r.stderr[-3000:]))
        os.rename(tmp, o)

    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(compile1, todo))

    def link1(f):
        exe, objs = links[f]
        if not os.path.exists(exe):
            tmp = "%s.%d.tmp" % (exe, os.getpid())
            r = sh(["g++"] + FLAVOURS[f]["link"] + objs + ["-o", tmp, "-ldl", "-rdynamic", "-pthread"] + (["-L" + python()[1], "-l" + python()[2]] if "py" in FLAVOURS[f] else []))
            if r.returncode:
                raise ToolError("cannot link %s:\n%s" % (f, r.stderr[-3000:]))
            os.rename(tmp, exe)
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(link1, flavours))
    keep = set(jobs) | {links[f][0] for f in flavours}
    for d in ("obj", "bin"):
        now = time.time()
        names = [os.path.join(BUILD, d, n) for n in os.listdir(os.path.join(BUILD, d))]
        for p in names:
            try:
                if p not in keep and now - os.path.getmtime(p) > 6 * 3600:
                    os.unlink(p)
            except OSError:
                pass
    return {f: links[f][0] for f in flavours}


def environment(flavour):
    env = dict(os.environ)
    for k in ("SIM_GARBAGE", "SIM_NOREEXEC", "SIM_VERBOSE", "LD_PRELOAD", "ASAN_OPTIONS", "UBSAN_OPTIONS"):
        env.pop(k, None)
    env["SIM_DATA"] = os.path.join(SIM, "data")
    if "py" in FLAVOURS[flavour]:
        env.update(SIM_PYTHON=PYTHON, SIM_PYPKG=cython()[1], OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
    env["LC_ALL"] = "C"
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=0"
    env.update(FLAVOURS[flavour].get("env", {}))
    return env


def last_json(text):
    for l in reversed(text.strip().split("\n")):
        l = l.strip()
        if l.startswith("{") and l.endswith("}"):
            try:
                return json.loads(l)
            except ValueError:
                pass
    return None


def flavours_of(prop):
    if prop == "C19":
        return ["zero", "pattern"]
    if prop == "C06":
        return ["sched"]
    if prop == "C25":
        return ["py", "pyfast"]
    return ["asan", "fast"]


def workers(prop, seconds, seed, bins):
    """Starts the workers, returns [(flavour, first, result or None, stderr)]"""
    jobs = []
    n = NCPU
    base = seed * 1000003
    if prop == "C19":
        pairs = max(1, n // 2)
        for i in range(pairs):
            for f in ("zero", "pattern"):
                jobs.append((f, ["hashes", prop, str(base + i), str(pairs), str(seconds)]))
    else:
        for i in range(n):
            f = flavours_of(prop)[0 if (prop == "C06" or i % 8 < 3) else 1]
            jobs.append((f, ["batch", prop, str(base + i), str(n), str(seconds)]))
    procs = []
    os.makedirs(os.path.join(BUILD, "run"), exist_ok=True)
    for i, (f, args) in enumerate(jobs):
        name = os.path.join(BUILD, "run", "%s.%d.%d" % (prop, os.getpid(), i))
        out, err = open(name + ".out", "w+"), open(name + ".err", "w+")
        procs.append([f, args, subprocess.Popen([bins[f]] + args, stdout=out, stderr=err, env=environment(f), start_new_session=True), out, err, name])
    limit = time.time() + seconds + 240
    found = False
    results = []
    pending = list(procs)
    while pending:
        time.sleep(0.2)
        for p in list(pending):
            rc = p[2].poll()
            if rc is None:
                if time.time() > limit or found:
                    try:
                        os.killpg(p[2].pid, signal.SIGKILL)
                    except OSError:
                        pass
                    p[2].wait()
                    results.append((p[0], p[1], None, "stopped" if found else "the worker did not finish in time", None))
                    pending.remove(p)
                continue
            pending.remove(p)
            p[3].seek(0)
            p[4].seek(0)
            r = last_json(p[3].read())
            e = p[4].read()[-3000:]
            results.append((p[0], p[1], r, e, rc))
            if r and r.get("violations"):
                found = True
    for p in procs:
        p[3].close()
        p[4].close()
        for x in (".out", ".err"):
            try:
                os.unlink(p[5] + x)
            except OSError:
                pass
    return results


def known_findings(prop):
    r = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for l in f:
                m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)$", l.strip())
                if m and m.group(1) == prop:
                    r.append((m.group(2), m.group(3)))
    except IOError:
        pass
    return r


def write_replay(prop, flavour, seed, cls, msg, plan):
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s-%s.replay" % (prop, flavour, seed))
    with open(p, "w") as f:
        f.write("# property: %s\n# flavour: %s\n# seed: %s\n# class: %s\n# message: %s\n# again: python3 %s/check.py replay %s\n" % (prop, flavour, seed, cls, " ".join(msg.split())[:1500], HERE, p))
        for l in plan:
            f.write(l + "\n")
    return p


def run_plan(exe, flavour, prop, path, seed):
    r = sh([exe, "run", prop, path, str(seed)], env=environment(flavour), timeout=400)
    d = last_json(r.stdout)
    if d is None:
        return {"cls": "base-crash", "msg": "the simulated process ended while the undisturbed library was being set up: exit status %s %s" % (r.returncode, r.stderr[-600:]), "hash": 0}
    if "violations" in d and d["violations"]:
        v = d["violations"][0]
        return {"cls": v["cls"], "msg": v["msg"], "hash": 0}
    return d


def confirm(prop, flavour, exe, v, seconds):
    """Minimises and reproduces, returns (replay path, cls, msg) or None"""
    d = os.path.join(BUILD, "run")
    raw = os.path.join(d, "raw.%s.%d" % (prop, os.getpid()))
    mini = raw + ".min"
    with open(raw, "w") as f:
        f.write("\n".join(v["plan"]) + "\n")
    try:
        first = run_plan(exe, flavour, prop, raw, v["seed"])
        if first["cls"] != v["cls"]:
            return None
        plan, cls, msg = v["plan"], v["cls"], first["msg"]
        if v["cls"] not in ("base", "base-crash") and v["plan"]:
            r = sh([exe, "minimise", prop, raw, str(v["seed"]), mini, str(seconds)], env=environment(flavour), timeout=seconds + 400)
            m = last_json(r.stdout)
            if m and m.get("cls") == v["cls"]:
                q = run_plan(exe, flavour, prop, mini, v["seed"])
                if q["cls"] == v["cls"]:
                    with open(mini) as f:
                        plan = [l.rstrip("\n") for l in f if l.strip()]
                    msg = q["msg"]
        return write_replay(prop, flavour, v["seed"], cls, msg, plan), cls, msg
    finally:
        for p in (raw, mini):
            try:
                os.unlink(p)
            except OSError:
                pass


def both(bins, plan, seed):
    """C19: the outcome of a plan under two different contents of fresh memory"""
    path = os.path.join(BUILD, "run", "both.%d.%d" % (os.getpid(), random.getrandbits(40)))
    with open(path, "w") as f:
        f.write("\n".join(plan) + "\n")
    try:
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            a, b = list(ex.map(lambda f: run_plan(bins[f], f, "C19", path, seed), ("zero", "pattern")))
    finally:
        os.unlink(path)
    if a["cls"] == "HARNESS" or b["cls"] == "HARNESS":
        return "", ""
    if a["cls"] != b["cls"]:
        return "memory-dependent", "with the memory left as zeros: <%s %s> with it left as a pattern: <%s %s>" % (a["cls"], a["msg"][:500], b["cls"], b["msg"][:500])
    if a["cls"]:
        return a["cls"], a["msg"]
    if a["hash"] != b["hash"]:
        return "memory-dependent", "the answers depend on what was in memory before"
    return "", ""


def shrink(bins, plan, seed, cls, seconds):
    end = time.time() + seconds
    n = 2
    while len(plan) > 1 and time.time() < end:
        chunk = (len(plan) + n - 1) // n
        done = False
        e = len(plan)
        while e > 0 and time.time() < end:
            b = max(0, e - chunk)
            v = plan[:b] + plan[e:]
            if v and both(bins, v, seed)[0] == cls:
                plan, done, n = v, True, max(n - 1, 2)
                break
            e -= chunk
        if not done:
            if chunk == 1:
                break
            n = min(len(plan), n * 2)
    i = 0
    while i < len(plan) and time.time() < end:
        if " @" in plan[i]:
            v = list(plan)
            v[i] = plan[i][:plan[i].rindex(" @")]
            if both(bins, v, seed)[0] == cls:
                plan = v
                continue
        i += 1
    return plan


def pairs(bins, results):
    """C19: violations among the pairs of workers"""
    by = {}
    runs = 0
    for f, args, r, e, rc in results:
        if r:
            for s, h, c in r["hashes"]:
                by.setdefault(s, {})[f] = (h, c)
    bad = []
    same = 0
    for s in sorted(by):
        if len(by[s]) == 2:
            runs += 1
            if by[s]["zero"] != by[s]["pattern"] or (by[s]["zero"][1]):
                bad.append(s)
            else:
                same += 1
    return runs, same, bad


def merge(results):
    t = {"runs": 0, "steps": 0, "compares": 0, "mutations": 0, "planned": 0, "again": 0, "identical": 0}
    counts, ops, distinct, states, worst = {}, {}, set(), set(), 0
    for f, args, r, e, rc in results:
        if not r:
            continue
        for k in t:
            t[k] += r.get(k, 0)
        for k, v in r.get("counts", {}).items():
            counts[k] = counts.get(k, 0) + v
        for k, v in r.get("ops", {}).items():
            ops[k] = ops.get(k, 0) + v
        distinct.update(r.get("distinct", []))
        states.update(r.get("states", []))
        worst = max(worst, r.get("worst_s", 0))
    return t, counts, ops, len(distinct), len(states), worst


def decide(prop, tier, seconds, seed):
    t0 = time.time()
    bins = build(flavours_of(prop))
    built = time.time() - t0
    t1 = time.time()
    results = workers(prop, seconds, seed, bins)
    search = time.time() - t1
    t, counts, ops, distinct, states, worst = merge(results)
    for f, args, r, e, rc in results:
        if r is None and rc is not None and not any(x[2] and x[2].get("violations") for x in results):
            if rc < 0 or rc > 3 or rc == 1 or rc == 2:
                # the process died while setting up the undisturbed library
                r0 = run_plan(bins[f], f, prop, "/dev/null", 0)
                if r0["cls"] == "base-crash":
                    p = write_replay(prop, f, 0, "base-crash", r0["msg"] + e, [])
                    results.append((f, args, {"violations": [{"seed": 0, "cls": "base-crash", "msg": r0["msg"], "plan": []}]}, e, 0))
                    break
            raise ToolError("worker %s of flavour %s: %s %s" % (args, f, rc, e))
        if r is None and rc is None and e != "stopped":
            raise ToolError("worker %s of flavour %s: %s" % (args, f, e))
    known = known_findings(prop)
    seen = {}
    reported = []
    extra = {}
    budget = 40 if tier == "quick" else 240
    if prop == "C19":
        compared, same, bad = pairs(bins, results)
        extra = {"runs_compared_between_memory_contents": compared, "identical_between_memory_contents": same}
        for s in bad[:3]:
            plan = [l for l in sh([bins["zero"], "plan", prop, str(s)], env=environment("zero")).stdout.split("\n") if l]
            cls, msg = both(bins, plan, s)
            if not cls:
                raise ToolError("seed %d of %s differs between runs but does not reproduce" % (s, prop))
            plan = shrink(bins, plan, s, cls, budget * 2)
            cls, msg = both(bins, plan, s)
            reported.append((write_replay(prop, "zero+pattern", s, cls, msg, plan), cls, msg))
            break
    unreproduced = None
    for f, args, r, e, rc in results:
        if not r:
            continue
        for v in r["violations"]:
            if v["cls"] == "HARNESS":
                raise ToolError("the simulator could not execute seed %s: %s" % (v["seed"], v["msg"]))
            if reported:
                break
            k = [x for x in known if re.search(x[0], v["cls"] + " " + v["msg"])]
            if k:
                seen[k[0][1]] = seen.get(k[0][1], 0) + 1
                continue
            c = confirm(prop, f, bins[f], v, budget)
            if c is None:
                unreproduced = "seed %s of flavour %s gave <%s %s> once and not when repeated" % (v["seed"], f, v["cls"], v["msg"][:300])
                continue
            reported.append(c)
    if unreproduced and not reported:
        raise ToolError(unreproduced)
    if t["again"] != t["identical"]:
        raise ToolError("%d of %d repeated runs were not identical" % (t["again"] - t["identical"], t["again"]))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[1]))
    evidence(prop, tier, seed, bins, t, counts, ops, distinct, states, worst, built, search, time.time() - t0, reported, extra)
    for p, cls, msg in reported:
        print("%s: %s" % (cls, msg[:1000]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
    if reported:
        return 1
    print("%s: %d runs, %d steps, %d answers compared, %d faults, %d distinct runs, %d abstract states, %.0f s building, %.0f s searching: no violation" % (
        prop, t["runs"], t["steps"], t["compares"], sum(v for k, v in counts.items() if k.startswith("fault.")), distinct, states, built, search))
    return 0


REAL = {
    "default": "the fisx library compiled from /repo/src: element, elements, epdl97, layer, detector, material, transmission table, beam, xrf, xrfconfig, simpleini, simplespecfile, multilayer code; libstdc++ streams and containers",
    "C06": "the fisx library compiled from /repo/src with every memory access instrumented; libstdc++ templates instantiated in it",
    "C25": "the Python classes translated by Cython from /repo/python/cython and compiled, the python/fisx package, CPython and numpy, and the whole fisx library compiled from /repo/src",
}
STUB = {
    "default": "disk (in-memory files behind open/read/lseek/close), memory allocator's success or failure and the contents of fresh memory, process boundary (a forked child per run)",
    "C06": "threads and their scheduling (coroutine-like threads passing a baton), disk (in-memory files)",
}


def evidence(prop, tier, seed, bins, t, counts, ops, distinct, states, worst, built, search, wall, reported, extra):
    os.makedirs(EVID, exist_ok=True)
    f0 = flavours_of(prop)[0]
    sample = []
    for s in (seed * 1000003, seed * 1000003 + 1):
        plan = [l for l in sh([bins[f0], "plan", prop, str(s)], env=environment(f0)).stdout.split("\n") if l]
        sample.append({"seed": s, "plan": plan[:60], "plan_length": len(plan)})
    faults = {k[6:]: v for k, v in sorted(counts.items()) if k.startswith("fault.")}
    d = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": t["runs"], "distinct_nontrivial": distinct,
            "rule": RULES.get(prop, RULES["default"]),
            "samples": sample,
            "runs_per_hour": int(t["runs"] * 3600 / max(search, 0.001)), "seeds": t["runs"],
            "simulated_time": "the code has no clock: time is counted in steps (calls into the library): %d" % t["steps"],
            "steps": t["steps"], "answers_compared": t["compares"], "changes_made": t["mutations"], "planned_operations": t["planned"],
            "faults_injected": faults, "faults_injected_total": sum(faults.values()),
            "other_counts": {k: v for k, v in sorted(counts.items()) if not k.startswith("fault.")},
            "operations": dict(sorted(ops.items())),
            "distinct_runs_measure": "hash over all answers of the run", "distinct_abstract_states": states,
            "abstract_state_measure": STATES.get(prop, STATES["default"]),
            "runs_repeated_for_determinism": t["again"], "runs_identical_when_repeated": t["identical"],
            "slowest_run_s": round(worst, 3), "flavours": flavours_of(prop),
            "real_components": REAL.get(prop, REAL["default"]), "stubbed_components": STUB.get(prop, STUB["default"]),
            "build_s": round(built, 1), "search_s": round(search, 1), "cpus": NCPU,
        },
        "wall_s": round(wall, 1), "violations": len(reported),
        "assumptions": ["data files are reduced copies of the fisx ones (verif/sim/data)", "an operation's faults are system call results and allocation failures; processor and memory are reliable"],
    }
    d["coverage"].update(extra)
    if reported:
        d["coverage"]["violation"] = {"replay": reported[0][0], "class": reported[0][1], "message": reported[0][2][:1000]}
    tmp = os.path.join(EVID, ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")
    os.rename(tmp, os.path.join(EVID, prop + ".json"))


def replay(path):
    head = {}
    plan = []
    with open(path) as f:
        for l in f:
            m = re.match(r"# (\w+): (.*)", l)
            if m:
                head.setdefault(m.group(1), m.group(2))
            elif l.strip():
                plan.append(l.rstrip("\n"))
    prop, flavour, seed = head["property"], head["flavour"], int(head["seed"])
    if flavour == "zero+pattern":
        bins = build(["zero", "pattern"])
        os.makedirs(os.path.join(BUILD, "run"), exist_ok=True)
        cls, msg = both(bins, plan, seed)
    else:
        bins = build([flavour])
        r = run_plan(bins[flavour], flavour, prop, path, seed)
        cls, msg = r["cls"], r["msg"]
    if cls:
        print("%s: %s" % (cls, msg))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("the replay file no longer fails")
    return 0


def main():
    a = argparse.ArgumentParser()
    a.add_argument("what")
    a.add_argument("path", nargs="?")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    a.add_argument("--seconds", type=float)
    a.add_argument("--seed", type=int)
    o = a.parse_args()
    try:
        seed = o.seed if o.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    except ValueError:
        seed = 1
    tier = "thorough" if o.tier == "thorough" else "quick"
    try:
        if o.what == "setup":
            build(list(FLAVOURS))
            return 0
        if o.what == "replay":
            return replay(o.path)
        seconds = o.seconds or (THOROUGH_S if tier == "thorough" else QUICK_S)
        return decide(o.what, tier, seconds, seed)
    except ToolError as e:
        print("TOOL-ERROR: %s" % e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
