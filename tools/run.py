#!/usr/bin/env python3
"""Builds the harness of a property from /repo's working tree, explores it exhaustively on all cores,
replays what it finds, writes evidence/<id>.json and prints VIOLATION / KNOWN-FINDING lines.

  run.py check C01 [quick|thorough]     run.py build [ids...]      run.py replay FILE
"""
import array, fcntl, glob, hashlib, json, os, re, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
SRC = REPO + "/orocos_kdl/src"
NCPU = os.cpu_count() or 4
CXX = "/usr/bin/g++"
COMMON = ["-std=gnu++17", "-g1", "-w", "-fno-omit-frame-pointer", "-ffp-contract=off", "-I/usr/include/eigen3"]
FLAGS = {
    # heap and stack errors abort, uninitialised Eigen storage is NaN, uninitialised locals are a fixed pattern
    "asan": ["-O1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS", "-DEIGEN_INITIALIZE_MATRICES_BY_NAN",
             "-ftrivial-auto-var-init=pattern"],
    "plain": ["-O1", "-D_GLIBCXX_ASSERTIONS", "-DEIGEN_INITIALIZE_MATRICES_BY_NAN", "-ftrivial-auto-var-init=pattern"],
    "pic": ["-O1", "-fPIC"],
    # instrumented for the thread sanitizer, but linked with harness/sched_rt.cpp in place of its runtime
    "sched": ["-O1", "-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS", "-DEIGEN_INITIALIZE_MATRICES_BY_NAN", "-ftrivial-auto-var-init=pattern"],
}
# the Python module and the library it is compared with
FLAGS["py"] = ["-O1", "-fPIC", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS", "-DEIGEN_INITIALIZE_MATRICES_BY_NAN"]
PYTHON = "/usr/bin/python3"
LINK = {fs: [f for f in fl if f.startswith("-fsan")] for fs, fl in FLAGS.items()}
LINK["sched"] = ["-Wl,--wrap=" + w for w in ("memcpy memmove memset memcmp pthread_mutex_lock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_once "
                                             "sched_yield __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort").split()]
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS  # noqa: E402

ENV = {k: v for k, v in os.environ.items() if not k.startswith(("CCACHE", "CXXFLAGS", "CFLAGS", "LDFLAGS", "ASAN_OPTIONS"))}
ENV["LC_ALL"] = "C.UTF-8"
ENV["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:detect_odr_violation=0:alloc_dealloc_mismatch=0:handle_abort=1:hard_rss_limit_mb=3000:allocator_may_return_null=0:symbolize=1"


class BuildError(Exception):
    pass


def sha(path, memo={}):
    try:
        st = os.stat(path)
        k = (path, st.st_mtime_ns, st.st_size, st.st_ino)
        if k not in memo:
            with open(path, "rb") as f:
                memo[k] = hashlib.sha256(f.read()).hexdigest()
        return memo[k]
    except OSError:
        return None


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def prepare():
    os.makedirs(B, exist_ok=True)
    inc = B + "/inc"
    os.makedirs(inc, exist_ok=True)
    cm = open(REPO + "/orocos_kdl/CMakeLists.txt").read()
    m = re.search(r"SET\(\s*KDL_VERSION\s+(\d+)\.(\d+)\.(\d+)", cm, re.I)
    v = m.groups() if m else ("1", "5", "2")
    t = open(SRC + "/config.h.in").read()
    for n, x in zip(("MAJOR", "MINOR", "PATCH"), v):
        t = t.replace("@KDL_VERSION_%s@" % n, x)
    t = t.replace("@KDL_VERSION@", ".".join(v))
    t = t.replace("#cmakedefine HAVE_STL_CONTAINER_INCOMPLETE_TYPES", "#define HAVE_STL_CONTAINER_INCOMPLETE_TYPES")
    t = re.sub(r"#cmakedefine (\w+)", r"/* #undef \1 */", t)
    write_if_changed(inc + "/config.h", t)
    write_if_changed(B + "/incpy/kdl/config.h", t)
    k = inc + "/kdl"
    if os.path.islink(k) and os.readlink(k) != SRC:
        os.unlink(k)
    if not os.path.islink(k):
        os.symlink(SRC, k)
    return inc


def compile_one(src, obj, flags):
    """Compiles src unless the recorded hashes of everything it read are unchanged."""
    rec = obj + ".json"
    cmd = [CXX] + COMMON + flags + ["-c", src, "-o", obj]
    try:
        r = json.load(open(rec))
        if r["cmd"] == cmd and os.path.exists(obj) and all(sha(p) == h for p, h in r["deps"].items()):
            return False
    except (OSError, ValueError, KeyError):
        pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    p = subprocess.run(cmd + ["-MD", "-MF", obj + ".d"], capture_output=True, text=True, env=ENV)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stderr[-4000:]))
    deps = open(obj + ".d").read().split(":", 1)[1].replace("\\\n", " ").split()
    with open(rec, "w") as f:
        json.dump({"cmd": cmd, "deps": {d: sha(d) for d in deps if not d.startswith("/usr/")}}, f)
    return True


def kdl_sources():
    s = []
    for root, _, files in os.walk(SRC):
        s += [os.path.join(root, f) for f in files if f.endswith((".cpp", ".cxx"))]
    return sorted(s)


def hints():
    """Library sources each harness was last seen to need (tools/hints.json); only saves compile time:
    when a link fails with them, everything is compiled."""
    try:
        return json.load(open(V + "/tools/hints.json"))
    except (OSError, ValueError):
        return {}


def link(exe, fs, own, lib, libs, trace=False):
    """Links own objects with the library objects, taken as an archive; returns (error text or None, members used)."""
    a = exe + ".lib.a"
    stamp = json.dumps([own, libs, lib, [sha(o) for o in lib], [sha(o) for o in own]])
    st = exe + ".stamp"
    if not trace and os.path.exists(exe) and os.path.exists(st) and open(st).read() == stamp:
        return None, []
    for f in (a, st):
        if os.path.exists(f):
            os.unlink(f)
    if lib:
        subprocess.run(["ar", "rcsT", a] + lib, check=True)
    p = subprocess.run([CXX] + LINK[fs] + own + ([a] if lib else []) + libs + ["-lpthread", "-o", exe] +
                       (["-Wl,-t"] if trace else []), capture_output=True, text=True, env=ENV)
    if p.returncode:
        return p.stderr[-4000:], []
    open(st, "w").write(stamp)
    return None, [o for o in lib if o in p.stdout] if trace else []


def python_include():
    return subprocess.run([PYTHON, "-c", "import sysconfig; print(sysconfig.get_paths()['include'])"], capture_output=True, text=True, env=ENV).stdout.strip()


def link_py(exe, own, lib, script, trace=False):
    """PyKDL.so and the oracle as shared objects, and a command that runs the exploration with them."""
    d = exe + ".d"
    os.makedirs(d, exist_ok=True)
    rt = [subprocess.run([CXX, "-print-file-name=" + x], capture_output=True, text=True, env=ENV).stdout.strip() for x in ("libasan.so", "libstdc++.so.6")]
    write_if_changed(exe, "#!/bin/sh\nexport C34_DIR=%s LD_PRELOAD='%s' PYTHONMALLOC=malloc PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1\nexec %s %s \"$@\"\n" % (d, " ".join(rt), PYTHON, script))
    os.chmod(exe, 0o755)
    stamp = json.dumps([own, lib, [sha(o) for o in own + lib]])
    st = exe + ".stamp"
    if not trace and os.path.exists(st) and open(st).read() == stamp:
        return None, []
    a = exe + ".lib.a"
    for f in (a, st):
        if os.path.exists(f):
            os.unlink(f)
    subprocess.run(["ar", "rcsT", a] + lib, check=True)
    used = set()
    orc = [o for o in own if "oracle" in o]
    for name, objs in (("PyKDL", [o for o in own if o not in orc]), ("c34_oracle", orc)):
        p = subprocess.run([CXX, "-shared", "-fsanitize=address", "-Wl,-t", "-Wl,-Bsymbolic"] + objs + [a, "-o", "%s/%s.so" % (d, name)], capture_output=True, text=True, env=ENV)
        if p.returncode:
            return p.stderr[-4000:], []
        used.update(o for o in lib if o in p.stdout)
    p = subprocess.run([exe, "--list"], capture_output=True, text=True, env=dict(ENV, LD_BIND_NOW="1"))
    if p.returncode:
        return p.stderr[-4000:], []
    open(st, "w").write(stamp)
    return None, sorted(used)


def build(harnesses, want_hints=False):
    """harnesses: list of (name, flagset, [sources], [extra flags]); returns {name: binary}"""
    inc = prepare()
    with open(B + "/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        hint = {} if want_hints else hints()
        allsrc = kdl_sources()
        todo, bins, used = list(harnesses), {}, {}
        for full in (False, True):
            jobs, out = {}, {}
            for name, fs, srcs, extra in todo:
                fl = FLAGS[fs] + ["-I" + inc, "-I" + SRC, "-I" + V + "/harness"]
                h = None if full else hint.get(name)
                lib = []
                for s in allsrc:
                    r = os.path.relpath(s, SRC)
                    if h is not None and r not in h:
                        continue
                    o = "%s/%s/%s.o" % (B, fs, r.replace("/", "_"))
                    jobs[o] = (s, fl)
                    lib.append(o)
                own = []
                if fs == "py":
                    srcs = sorted(glob.glob(REPO + "/python_orocos_kdl/PyKDL/*.cpp")) + ["c34_oracle.cpp"]
                    fl = fl + ["-I" + B + "/incpy", "-I" + python_include()]
                for s in srcs:
                    p = s.replace("@REPO@", REPO)
                    if not p.startswith("/"):
                        p = V + "/harness/" + p
                    o = "%s/%s/h_%s_%s.o" % (B, fs, name, os.path.basename(p))
                    jobs[o] = (p, (["-fvisibility=hidden"] if "/PyKDL/" in p else []) + [f for f in fl if not (f == "-fsanitize=thread" and p.endswith("/sched_rt.cpp"))] + [x.replace("@REPO@", REPO) for x in extra if not x.startswith("-l")])
                    own.append(o)
                out[name] = (fs, own, lib, [x for x in extra if x.startswith("-l")])
            # the slow ones first
            order = sorted(jobs, key=lambda o: (0 if "/h_" in o else 1, -os.path.getsize(jobs[o][0])))
            with ThreadPoolExecutor(NCPU) as ex:
                fut = [ex.submit(compile_one, jobs[o][0], o, jobs[o][1]) for o in order]
                for f in fut:
                    f.result()
                res = {name: ex.submit(link_py, "%s/%s/%s" % (B, fs, name), own, lib, "%s/harness/%s.py" % (V, name), want_hints) if fs == "py" else
                       ex.submit(link, "%s/%s/%s" % (B, fs, name), fs, own, lib, libs, want_hints) for name, (fs, own, lib, libs) in out.items()}
            again = []
            for t in todo:
                err, members = res[t[0]].result()
                if err is None:
                    bins[t[0]] = "%s/%s/%s" % (B, t[1], t[0])
                    used[t[0]] = members
                elif full or hint.get(t[0]) is None:
                    raise BuildError(err)
                else:
                    again.append(t)
            if not again:
                break
            todo = again
        if want_hints:
            rel = {o: r for r in (os.path.relpath(s, SRC) for s in allsrc) for o in [r.replace("/", "_") + ".o"]}
            return {n: sorted(rel[os.path.basename(o)] for o in m) for n, m in used.items()}
        return bins


def known(prop):
    k, p = {}, V + "/known-findings.txt"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                k[m.group(2)] = m.group(3)
    return k


def slug(s):
    return re.sub(r"[^A-Za-z0-9_.:|<>=,+-]+", "_", s)


def run_shards(exe, tier, rundir, limit, budget, extra=()):
    os.makedirs(rundir, exist_ok=True)
    for f in glob.glob(rundir + "/*"):
        os.unlink(f)
    n = NCPU
    ps = []
    for i in range(n):
        out, cr = "%s/out%d.json" % (rundir, i), "%s/crash%d" % (rundir, i)
        cmd = [exe, "--shard", "%d/%d" % (i, n), "--out", out, "--crash", cr, "--limit", str(limit)] + list(extra)
        if tier == "thorough":
            cmd.append("--thorough")
        log = open("%s/log%d" % (rundir, i), "w")
        ps.append((i, subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=ENV, cwd=rundir), out, cr))
    end = time.time() + budget
    res = []
    for i, p, out, cr in ps:
        try:
            rc = p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "timeout"
        res.append((i, rc, out, cr, "%s/log%d" % (rundir, i)))
    return res


def read_crash(path):
    d = open(path, "rb").read()
    if len(d) < 16:
        return None
    depth, sc, status = int.from_bytes(d[0:4], "little"), int.from_bytes(d[4:8], "little"), int.from_bytes(d[8:12], "little")
    ch = [int.from_bytes(d[16 + 2 * i:18 + 2 * i], "little") for i in range(min(depth, 4096))]
    return sc, status, ch


def crash_key(log):
    m = re.search(r"AddressSanitizer: ([\w-]+)", log)
    kind = m.group(1) if m else None
    if not kind:
        m = re.search(r"Assertion [`'](.*?)['`] failed", log, re.S)
        kind = "assertion" if m else ("watchdog" if "WATCHDOG" in log else "died")
    fn = ""
    for m in re.finditer(r"#\d+ 0x\w+ in (.+?) (\S+?):(\d+)", log):
        if "/orocos_kdl/src/" in m.group(2):
            fn = re.sub(r"\(.*", "", m.group(1)).split("::")[-1]
            break
    return "crash:" + kind + (":" + fn if fn else "")


def replay(exe, scenario, choices, tier, limit=240):
    cmd = [exe, "--scenario", scenario, "--replay", choices, "--limit", str(limit)]
    if tier == "thorough":
        cmd.append("--thorough")
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", env=ENV, timeout=limit + 60, cwd=B)
    except subprocess.TimeoutExpired:
        return "hang", "no termination within %d s" % limit
    return p.returncode, p.stdout[-12000:] + p.stderr[-8000:]


def check(prop, tier):
    t0 = time.time()
    cfg = CHECKS[prop]
    hs = [(h["name"], h.get("flags", "asan"), h["src"], h.get("extra", [])) for h in cfg["harness"]]
    try:
        bins = build(hs)
    except BuildError as e:
        print("BUILD FAILED\n%s" % e)
        return 2
    tb = time.time() - t0
    agg = {"executions": 0, "transitions": 0, "checks": 0}
    states, scen, counters, samples, viols, perh = 0, {}, {}, [], [], {}
    capped = []
    for h in cfg["harness"]:
        exe = bins[h["name"]]
        names = subprocess.run([exe, "--list"], capture_output=True, text=True, env=ENV).stdout.split()
        budget = (800 if tier == "quick" else 7200)
        st = set()
        for i, rc, out, cr, log in run_shards(exe, tier, "%s/run/%s_%s" % (B, prop, h["name"]), h.get("limit", 60), budget):
            if rc == 0:
                d = json.load(open(out))
                for k in agg:
                    agg[k] += d[k]
                for k, v in d["scenarios"].items():
                    scen[h["name"] + "." + k] = scen.get(h["name"] + "." + k, 0) + v
                for k, v in d["counters"].items():
                    counters[k] = counters.get(k, 0) + v
                samples += d["samples"]
                a = array.array("Q")
                with open(out + ".states", "rb") as f:
                    a.frombytes(f.read())
                st.update(a)
                for v in d["violations"]:
                    viols.append((h["name"], exe, v["scenario"], v["key"], v["msg"], v["choices"], v["count"]))
            elif rc == "timeout":
                capped.append("%s shard %d stopped by its time limit" % (h["name"], i))
            else:
                txt = open(log, errors="replace").read()
                if rc == 4 or re.search(r"^mc: (?!WATCHDOG)", txt, re.M):
                    print("HARNESS ERROR %s shard %d exit %s\n%s" % (h["name"], i, rc, txt[-3000:]))
                    return 2
                c = read_crash(cr)
                sc, status, ch = c
                viols.append((h["name"], exe, names[sc], crash_key(txt), "the process died (exit %s): %s" % (rc, txt[:1500]),
                              ",".join(map(str, ch)), 1))
        perh[h["name"]] = len(st)
        states += len(st)
    # merge the shards' reports; the shortest choice sequence represents a key
    merged = {}
    for v in viols:
        k = (v[0], v[2], v[3])
        o = merged.get(k)
        if o is None:
            merged[k] = v
        else:
            n = o[6] + v[6]
            best = min(o, v, key=lambda x: (x[5].count(","), len(x[5]), x[5]))
            merged[k] = best[:6] + (n,)
    kn = known(prop)
    bad, seen_known, unrep = [], {}, []
    for v in sorted(merged.values(), key=lambda x: (x[0], x[2], x[5].count(","), x[3])):
        full = slug("%s.%s:%s" % (v[0], v[2], v[3]))
        hit = next((k for k in kn if k == full), None)
        if hit:
            seen_known[hit] = v
            continue
        if len(bad) < 12:
            rc, txt = replay(v[1], v[2], v[5], tier)
            if rc == 0:
                unrep.append((full, v))
                continue
            bad.append((full, v, rc, txt))
        else:
            bad.append((full, v, None, ""))
    os.makedirs(V + "/replays", exist_ok=True)
    for f in glob.glob(V + "/replays/%s-*.txt" % prop):
        os.unlink(f)
    for k, v in seen_known.items():
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, kn[k], k))
    for n, (full, v, rc, txt) in enumerate(bad):
        path = "%s/replays/%s-%d.txt" % (V, prop, n)
        with open(path, "w") as f:
            json.dump({"property": prop, "harness": v[0], "scenario": v[2], "choices": v[5], "tier": tier, "key": full}, f)
            f.write("\n%s\nreported by %d execution(s)\n\nreplay (exit %s):\n%s\n" % (v[4], v[6], rc, txt))
        print("  %s: %s" % (full, v[4][:400].replace("\n", " | ")))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    for full, v in unrep:
        print("NOT REPRODUCED %s choices=%s: %s" % (full, v[5], v[4][:300]))
    wall = time.time() - t0
    cov = {"states": states, "transitions": agg["transitions"], "traces_validated_against_impl": agg["executions"],
           "samples": samples[:12], "oracle_comparisons": agg["checks"], "executions_by_scenario": scen,
           "counters": counters, "exhaustive": not capped and not viols, "build_s": round(tb, 1),
           "explanation": cfg["explanation"]}
    if len(cfg["harness"]) > 1:
        cov["states_by_harness"] = perh
    if capped:
        cov["caps"] = capped
    write_evidence(prop, tier, cov, wall, len(bad), cfg)
    print("%s %s: %d executions, %d states, %d transitions, %d comparisons, %d violation(s), %.1f s (build %.1f s)" % (
        prop, tier, agg["executions"], states, agg["transitions"], agg["checks"], len(bad), wall, tb))
    if bad:
        return 1
    if unrep or (capped and tier == "quick"):
        return 2
    return 0


def write_evidence(prop, tier, cov, wall, nviol, cfg):
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(V + "/evidence/%s.json" % prop, "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": cfg.get("level", "model_checking"),
                   "coverage": cov, "assumptions": cfg.get("assumptions", []), "wall_s": round(wall, 2), "violations": nviol}, f, indent=1)


def main():
    a = sys.argv[1:]
    if a and a[0] == "check":
        tier = a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")
        rc = check(a[1], tier)
        sys.stdout.flush()
        return rc
    if a and a[0] == "build":
        hs = {}
        for p, cfg in CHECKS.items():
            if len(a) > 1 and p not in a[1:]:
                continue
            for h in cfg["harness"]:
                hs[h["name"]] = (h["name"], h.get("flags", "asan"), h["src"], h.get("extra", []))
        t0 = time.time()
        try:
            build(list(hs.values()))
        except BuildError as e:
            print("BUILD FAILED\n%s" % e)
            return 2
        print("built %d harnesses in %.1f s" % (len(hs), time.time() - t0))
        return 0
    if a and a[0] == "hints":
        hs = {}
        for p, cfg in CHECKS.items():
            for h in cfg.get("harness", []):
                hs[h["name"]] = (h["name"], h.get("flags", "asan"), h["src"], h.get("extra", []))
        d = build(list(hs.values()), True)
        with open(V + "/tools/hints.json", "w") as f:
            json.dump(d, f, indent=0, sort_keys=True)
        return 0
    if a and a[0] == "replay":
        d = json.loads(open(a[1]).readline())
        cfg = CHECKS[d["property"]]
        hs = [(h["name"], h.get("flags", "asan"), h["src"], h.get("extra", [])) for h in cfg["harness"] if h["name"] == d["harness"]]
        rc, txt = replay(build(hs)[d["harness"]], d["scenario"], d["choices"], d["tier"])
        print(txt)
        print("exit", rc)
        return 0 if rc == 0 else 1
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
