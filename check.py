#!/usr/bin/env python3
"""check.py <property> --tier quick|thorough : rebuild the harnesses of one property from /repo's working tree,
explore exhaustively within the stated bounds, write evidence/<property>.json.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: a replayed counterexample exists."""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, sysconfig, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, "build")
sys.path.insert(0, V)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

class BuildError(Exception):
    pass

# ------------------------------------------------------------------ building
def gen_config(dst):
    src = open(os.path.join(REPO, "lib/include/hawktracer/ht_config.h.in")).read()
    m = re.search(r"project\s*\([^)]*VERSION\s+(\d+)\.(\d+)\.(\d+)", open(os.path.join(REPO, "CMakeLists.txt")).read())
    a, b, c = m.groups() if m else ("0", "0", "0")
    on = {"HT_PLATFORM_FEATURE_CPU_USAGE_ENABLED", "HT_PLATFORM_FEATURE_MEMORY_USAGE_ENABLED", "HT_USE_PTHREADS",
          "HT_ENABLE_TCP_LISTENER", "HT_ENABLE_THREADS"}
    src = re.sub(r"#cmakedefine\s+(\w+)", lambda k: "#define " + k.group(1) if k.group(1) in on else "/* #undef %s */" % k.group(1), src)
    for k, v in (("PROJECT_VERSION_MAJOR", a), ("PROJECT_VERSION_MINOR", b), ("PROJECT_VERSION_PATCH", c), ("PROJECT_VERSION", "%s.%s.%s" % (a, b, c))):
        src = src.replace("@%s@" % k, v)
    os.makedirs(os.path.join(dst, "hawktracer"), exist_ok=True)
    path = os.path.join(dst, "hawktracer/ht_config.h")
    if not os.path.exists(path) or open(path).read() != src:
        open(path, "w").write(src)
    return src

INCLUDES = ["lib/include", "parser/include", "client_utils/include", "client", "."]
GROUPS = {
    "lib": ["lib/*.c", "lib/*.cpp", "lib/listeners/*.c", "lib/listeners/*.cpp", "lib/platform/linux/cpu_usage.c", "lib/platform/linux/memory_usage.c"],
    "parser": ["parser/*.cpp"],
    "client_utils": ["client_utils/*.cpp"],
    "client": ["client/*.cpp"],
    "python_client": ["bindings/python3/*client*.cpp"],
    "python_core": ["bindings/python3/*core*.cpp"],
}
VARIANTS = {
    "asan": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "conc": ["-O1", "-g1", "-fsanitize=thread", "-fno-pie"],
    "plain": ["-O1", "-g1"],
}

class Builder:
    def __init__(self):
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
        self.inc = os.path.join(BUILD, "include")
        cfg = gen_config(self.inc)
        h = hashlib.sha1(cfg.encode())
        for d in INCLUDES[:-1] + ["bindings"]:
            for f in sorted(glob.glob(os.path.join(REPO, d, "**/*.h*"), recursive=True)):
                if os.path.isfile(f):
                    h.update(f[len(REPO):].encode()); h.update(open(f, "rb").read())
        for f in sorted(glob.glob(os.path.join(V, "mc/*.h*")) + glob.glob(os.path.join(V, "h/*.h*"))):
            h.update(open(f, "rb").read())
        self.hdr = h.hexdigest()
        self.lock, self.busy = threading.Lock(), {}

    def compile(self, src, flags):
        key = hashlib.sha1(("\0".join([src, self.hdr] + flags)).encode() + open(src, "rb").read()).hexdigest()
        obj = os.path.join(BUILD, "obj", key + ".o")
        with self.lock:
            once = self.busy.setdefault(key, threading.Lock())
        with once:
            return obj if os.path.exists(obj) else self.compile_to(obj, src, flags)

    def compile_to(self, obj, src, flags):
        cc = "clang" if src.endswith(".c") else "clang++"
        tmp = obj + ".%d.tmp" % os.getpid()
        r = sh([cc] + flags + ["-c", src, "-o", tmp])
        if r.returncode:
            raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-3000:]))
        os.rename(tmp, obj)
        return obj

    def single_file(self, suffix, threads):
        """the library as one generated file, alone in a directory with its header and configuration"""
        cfg = open(os.path.join(self.inc, "hawktracer/ht_config.h")).read()
        if not threads:
            cfg = cfg.replace("#define HT_ENABLE_THREADS", "/* #undef HT_ENABLE_THREADS */").replace("#define HT_ENABLE_TCP_LISTENER", "/* #undef HT_ENABLE_TCP_LISTENER */")
        k = hashlib.sha1(cfg.encode())
        for f in sorted(glob.glob(os.path.join(REPO, "lib/**/*.*"), recursive=True)) + [os.path.join(REPO, "tools/amalgamate.py"), os.path.join(REPO, "LICENSE")]:
            if os.path.isfile(f):
                k.update(f[len(REPO):].encode()); k.update(open(f, "rb").read())
        dst = os.path.join(BUILD, "single-%s-%s" % (suffix, k.hexdigest()[:16]))
        with self.lock:
            if not os.path.isdir(dst):
                tmp = tempfile.mkdtemp(dir=BUILD)
                open(os.path.join(tmp, "cfg.h"), "w").write(cfg)
                r = sh(["python3", "-B", os.path.join(REPO, "tools/amalgamate.py"), "--root-dir", REPO, "--out-dir", os.path.join(tmp, "o"), "--config-path", os.path.join(tmp, "cfg.h")] + (["--cpp"] if suffix == "cpp" else []), cwd=tmp)
                if r.returncode:
                    raise BuildError("generating the single file library failed:\n%s" % r.stdout[-3000:])
                os.rename(os.path.join(tmp, "o"), dst)
                shutil.rmtree(tmp, ignore_errors=True)
        return os.path.join(dst, "hawktracer." + suffix)

    def build(self, h):
        """h: harness description dict(name, kind, groups)"""
        kind = h["kind"]
        variant = {"seq": h.get("variant", "asan"), "conc": "conc"}[kind]
        inc = ["-I" + self.inc] + ["-I" + os.path.join(REPO, i) for i in INCLUDES] + ["-I" + os.path.join(V, "mc"), "-I" + os.path.join(V, "h")]
        py = ["-I" + sysconfig.get_paths()["include"], '-DPYDIR="%s/h/py"' % V] if h.get("python") else []
        base = VARIANTS[variant] + ["-DNDEBUG", "-w", "-include", "stdint.h"] + h.get("defs", []) + inc + py
        jobs = []
        if h.get("single"):    # the library under test is the generated single file; headers come from the tree
            suffix, threads = h["single"]
            f = self.single_file(suffix, threads)
            # the library chooses its atomic operations by the version of gcc that the compiler says it is: clang says 4.2, the project is built with a new one
            flags = VARIANTS[variant] + ["-DNDEBUG", "-w", "-include", "stdint.h", "-I" + os.path.dirname(f)] + h.get("single_flags", ["-fgnuc-version=6.5"])
            jobs.append((f, (["-std=c99", "-D_GNU_SOURCE"] if suffix == "c" else ["-std=c++11"]) + flags))
            if not threads:
                nt = os.path.join(os.path.dirname(f), "inc")
                os.makedirs(os.path.join(nt, "hawktracer"), exist_ok=True)
                shutil.copyfile(os.path.join(os.path.dirname(f), "ht_config.h"), os.path.join(nt, "hawktracer/ht_config.h"))
                base = [nt if x == "-I" + self.inc else x for x in base]
                base = ["-I" + x if x == nt else x for x in base]
        for g in h["groups"]:
            files = sorted({f for p in GROUPS[g] for f in glob.glob(os.path.join(REPO, p))})
            for f in files:
                rel = os.path.relpath(f, REPO)
                if rel in ("client/main.cpp",) or rel in h.get("exclude", ()):
                    continue
                jobs.append((f, (["-std=c99", "-D_GNU_SOURCE"] if f.endswith(".c") else ["-std=c++11"]) + base))
        for s in h.get("extra", []):
            jobs.append((os.path.join(REPO, s), (["-std=c99", "-D_GNU_SOURCE"] if s.endswith(".c") else ["-std=c++11"]) + base + h.get("extra_defs", [])))
        for s in [h.get("main", h["name"]) + ".cpp"] + h.get("sources", []):
            jobs.append((os.path.join(V, "h", s), (["-std=c99", "-D_GNU_SOURCE"] if s.endswith(".c") else ["-std=c++17"]) + base))
        rt = os.path.join(V, "mc", "seq_rt.cpp" if kind == "seq" else "conc_rt.cpp")
        jobs.append((rt, ["-std=c++17", "-w"] + (VARIANTS[variant] if kind == "seq" else ["-O2", "-g1", "-fno-pie"])))
        with cf.ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(lambda j: self.compile(*j), jobs))
        key = hashlib.sha1("\0".join(objs).encode()).hexdigest()[:16]
        exe = os.path.join(BUILD, "%s-%s" % (h["name"], key))
        if not os.path.exists(exe):
            link = ["-fsanitize=address"] if variant == "asan" else ["-no-pie"] if kind == "conc" else []
            r = sh(["clang++"] + link + objs + ["-rdynamic", "-lpthread", "-ldl", "-o", exe + ".tmp"] + h.get("link", []) + (["-lpython" + sysconfig.get_config_var("LDVERSION")] if h.get("python") == "embed" else []))
            if r.returncode and h.get("python") == "modelled" and r.stdout.count("undefined") and all(re.match("_?Py", x) for x in re.findall(r"undefined (?:reference to|symbol:) [`']?(\w+)", r.stdout)):
                return None     # uses an interpreter function the model lacks: this harness cannot judge the code
            if r.returncode:
                raise BuildError("linking %s failed:\n%s" % (h["name"], r.stdout[-3000:]))
            os.rename(exe + ".tmp", exe)
        return exe

# ------------------------------------------------------------------ running
def scratch_base():
    """In memory where there is room: a disk that stalls must not look like a program that hangs."""
    try:
        if os.access("/dev/shm", os.W_OK | os.X_OK) and shutil.disk_usage("/dev/shm").free > 1 << 30:
            return "/dev/shm"
    except OSError:
        pass
    return None

def run_harness(exe, h, tier, budget, workers, extra=()):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "exitcode=77:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0"
    env.pop("MC_NOASLR", None)
    scratch = tempfile.mkdtemp(prefix="verif-", dir=scratch_base())
    cmd = [exe, "--tier", tier, "--budget", str(budget), "--workers", str(workers)] + list(extra)
    if h.get("scenarios") and "--scenario" not in cmd:
        cmd += ["--scenario", h["scenarios"]]
    if h["kind"] == "seq":
        cmd += ["--scratch", scratch]
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env, cwd=scratch, start_new_session=True)
        try:
            out, err = p.communicate(timeout=budget + 150)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            out, err = p.communicate()
            return None, "harness exceeded its time", p.returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    try:
        return json.loads(out), err, p.returncode
    except ValueError:
        return None, "unreadable harness output: %r %r" % (out[-500:], err[-500:]), p.returncode

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--only")
    ap.add_argument("--workers", type=int, default=max(1, min(8, os.cpu_count() or 1)))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    from harnesses import PROPERTIES, HARNESSES
    if a.property == "all" and a.build_only:
        b = Builder()
        for n in sorted({x for p in PROPERTIES.values() for x in p["harnesses"]}):
            b.build(dict(HARNESSES[n], name=n))
        return 0
    prop = PROPERTIES[a.property]
    t0 = time.time()
    try:
        b = Builder()
        exes = [(n, dict(HARNESSES[n], name=n)) for n in prop["harnesses"]]
        if a.only:
            exes = [e for e in exes if e[0] == a.only]
        with cf.ThreadPoolExecutor(4) as ex:
            built = list(ex.map(lambda e: b.build(e[1]), exes))
    except BuildError as e:
        print("error: cannot build the harness of %s from %s\n%s" % (a.property, REPO, e), file=sys.stderr)
        return 2
    if a.build_only:
        return 0
    total = a.budget or (prop.get("budget", 240) if a.tier == "quick" else prop.get("budget_thorough", 780))
    results, violation, notes = [], None, []
    for (n, h), exe in zip(exes, built):
        if exe is None:
            notes.append("%s: uses an interpreter function that is not modelled; skipped" % n); continue
        left = total - (time.time() - t0)
        share = max(20.0, left * h.get("share", 1.0) / max(1e-9, sum(x[1].get("share", 1.0) for x in exes[[e[0] for e in exes].index(n):])))
        res, err, rc = run_harness(exe, h, a.tier, share, a.workers)
        if res is None:
            notes.append("%s: %s" % (n, err)); continue
        for r in res:
            r["harness"] = n
        f = next((r for r in res if "failure" in r), None)
        if f and f["failure"]["kind"] == "unreproduced":
            # the failure depends on what ran before in the same process: isolate every execution, else require a second occurrence
            first = f
            res2, err2, _ = run_harness(exe, h, a.tier, share, a.workers, ["--scenario", f["scenario"]] + (["--isolate"] if h["kind"] == "seq" else []))
            f2 = next((r for r in (res2 or []) if "failure" in r), None)
            if not (f2 and f2["failure"]["kind"] == "violation") and h["kind"] == "seq" and not first.get("isolated") and "hang:" not in first["failure"]["message"]:
                res2, err2, _ = run_harness(exe, h, a.tier, share, a.workers, ["--scenario", f["scenario"]])
                f2 = next((r for r in (res2 or []) if "failure" in r), None)
                if f2 and "hang:" in f2["failure"]["message"]:
                    f2 = None
                if f2:
                    f2["failure"]["kind"] = "violation"
                    f2["failure"]["message"] += " (depends on earlier executions in the same process; occurred in two separate runs)"
            if f2:
                f2["harness"] = n
                res = [r for r in res if r["scenario"] != f2["scenario"]] + [f2]
                f = f2
            if f["failure"]["kind"] != "violation":
                notes.append("%s/%s: failure not reproducible, not reported: %s" % (n, f["scenario"], first["failure"]["message"]))
        elif f and "is not modelled" in f["failure"]["message"]:
            notes.append("%s/%s: %s; skipped" % (n, f["scenario"], f["failure"]["message"]))
            f = None
        elif f and f["failure"]["kind"] == "internal":
            notes.append("%s/%s: explorer error: %s" % (n, f["scenario"], f["failure"]["message"]))
        results += res
        for r in res:
            print("%s %-10s %-34s executions=%-9d steps=%-10d outcomes=%-7d complete=%s %s%.1fs" % (
                a.property, n, r["scenario"], r["executions"], r["steps"], r["distinct_outcomes"], r["complete"],
                ("pb=%d/%d eb=%d/%d " % (r["completed_pb"], r["pb"], r["completed_eb"], r["eb"])) if "pb" in r else "", r["wall_s"]))
        if f and f["failure"]["kind"] == "violation":
            violation = (n, h, exe, f)
            break
    replay = None
    if violation:
        n, h, exe, f = violation
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        fl = f["failure"]
        if h["kind"] == "conc":
            arg = ["--replay", ",".join("%d:%d:%d" % tuple(d) for d in fl["decisions"]) or "-", "--eb", str(f["eb"])] + (["--racy", fl["racy"]] if fl["racy"] else [])
        else:
            arg = ["--replay", ",".join(map(str, fl["decisions"]))]
        replay = os.path.join(V, "replays", "%s-%s-%s.json" % (a.property, n, f["scenario"]))
        json.dump(dict(property=a.property, harness=n, scenario=f["scenario"], message=fl["message"], history=fl.get("history", ""),
                       decisions=fl["decisions"], racy=fl.get("racy", ""), tier=a.tier,
                       how_to_replay="cd %s && python3 check.py %s --tier %s --build-only && %s --tier %s --scenario %s %s" % (V, a.property, a.tier, exe, a.tier, f["scenario"], " ".join(arg))),
                  open(replay, "w"), indent=1)
        print("counterexample in %s/%s: %s" % (n, f["scenario"], fl["message"]))
        if fl.get("history"):
            print("history: %s" % fl["history"])
    ex = sum(r["executions"] for r in results)
    complete = bool(results) and all(r["complete"] for r in results) and not notes
    states = sum(r.get("distinct_states", 0) or r["distinct_outcomes"] for r in results)
    samples = []
    for r in results:
        for s in r.get("samples", [])[:2]:
            samples.append("%s/%s: %s" % (r["harness"], r["scenario"], s[:300]))
    if not samples:
        samples = ["%s/%s: %d schedules, up to %d decisions each, %d threads, %d distinct outcomes" % (r["harness"], r["scenario"], r["executions"], r["max_decisions"], r.get("max_threads", 1), r["distinct_outcomes"]) for r in results]
    ev = dict(property=a.property, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
              coverage=dict(states=max(1, states) if results else 0, transitions=sum(r["steps"] for r in results),
                            traces_validated_against_impl=ex, samples=samples[:12], exhaustive=complete,
                            evaluations=ex, distinct_nontrivial=sum(r["distinct_outcomes"] for r in results),
                            rule=prop["rule"], scenarios=results, notes=notes),
              assumptions=prop["assumptions"], wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", a.property + ".json"), "w"), indent=1)
    for s in notes:
        print("note: " + s)
    kf = os.path.join(V, "known_findings.txt")
    if violation:
        f = violation[3]
        for line in open(kf) if os.path.exists(kf) else []:
            m = re.match(r"known: property=(\S+) harness=(\S+) scenario=(\S+) message=(.*)$", line.strip())
            if m and m.group(1) == a.property and m.group(2) == violation[0] and m.group(3) == f["scenario"] and m.group(4) in f["failure"]["message"]:
                print("KNOWN-FINDING: property=%s %s" % (a.property, f["failure"]["message"]))
                return 0
        print("VIOLATION property=%s replay=%s" % (a.property, replay))
        return 1
    if not results:
        print("error: nothing was explored", file=sys.stderr)
        return 2
    print("%s: held on everything explored (%d executions, exhaustive within bounds: %s), %.1f s" % (a.property, ex, complete, time.time() - t0))
    return 0

if __name__ == "__main__":
    sys.exit(main())
