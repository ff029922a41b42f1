#!/usr/bin/env python3
"""Sensitivity study: plants small mechanical changes in a scratch copy of /repo, keeps those which compile and
pass the repository's own googletest binary, and reports which of them the registered quick checks notice.
  mutate.py list                 print all mutants
  mutate.py run OUT.jsonl [--part i/n] [--files regex] [--workers w]
Works only in scratch copies under /tmp; /repo and /verif are read, never written."""
import argparse, json, os, re, shutil, subprocess, sys, time, hashlib
REPO = "/repo"
PROPS = [  # file pattern -> properties whose checks are asked, in this order
    (r"lib/timeline\.c", "P01 P02 P16 P13"), (r"lib/timeline_listener\.c", "P03 P01 P17 P05"), (r"lib/registry\.c", "P05 P16 P03 P17 P20"),
    (r"lib/listener_buffer\.c", "P06 P10"), (r"lib/listeners/file_dump", "P06 P17"), (r"lib/listeners/tcp", "P10 P11 P17"),
    (r"lib/tcp_server", "P10 P11 P17"), (r"lib/stack\.c", "P13"), (r"lib/feature_callstack", "P13 P16"), (r"lib/feature_cached", "P14 P16 P17"),
    (r"lib/hash_map", "P14 P17"), (r"lib/task_sched", "P15 P17"), (r"lib/event_id", "P04"), (r"lib/global_timeline", "P03 P20 P21"),
    (r"lib/init\.c", "P20"), (r"lib/command_line", "P21"), (r"lib/mutex", "P02 P06 P11"), (r"lib/thread\.c", "P04"), (r"lib/system_info", "P05 P20"),
    (r"lib/event_utils|lib/events\.c|event_macros", "P05 P01 P06 P08"), (r"lib/alloc\.c", "P17"), (r"internal/bag\.h", "P15 P05 P14 P17"),
    (r"lib/scoped|scoped_trace", "P13"), (r"posix_mapped", "P13"), (r"monotonic", "P13"),
    (r"internal/hash\.h|hash\.h", "P14"),
    (r"parser/protocol", "P08 P07 P22 P09 P30"), (r"parser/debug", "P33"), (r"parser/event_klass|parser/klass_reg", "P31 P08 P22 P18"), (r"parser/event\.|endianness_conv|parser/.*event\.hpp", "P30 P08 P22 P18"), (r"parser/file_stream", "P07 P08 P30"), (r"linux/alloc", "P27"), (r"linux/", "P26"), (r"bindings/python3/hawktracer_core", "P25"), (r"bindings/python3/", "P24"),
    (r"client/call", "P19"), (r"client/chrome|client/tracepoint|client/conv", "P18 P19"), (r"client_utils/tcp", "P12 P09"), (r"client_utils/command|client/main|stream_factory", "P21 P18"),
]
FILES = ["lib/*.c", "lib/*.cpp", "lib/listeners/*.c", "lib/include/internal/bag.h", "lib/include/internal/hash.h", "lib/include/hawktracer/event_macros*.h",
         "lib/include/hawktracer/scoped_tracepoint.hpp", "parser/*.cpp", "parser/include/hawktracer/parser/event.hpp", "parser/include/hawktracer/parser/endianness_convert.hpp",
         "client/*.cpp", "client_utils/*.cpp", "lib/platform/linux/*.c", "bindings/python3/*.cpp", "bindings/python3/*.hpp"]
OPS = [
    (r"(?<![<>\-=])<(?![<>=a-zA-Z_\"])", "<="), (r"<=", "<"), (r"(?<![<>\-=])>(?![<>=])(?=\s)", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="),
    (r"&&", "||"), (r"\|\|", "&&"), (r"\bHT_TRUE\b", "HT_FALSE"), (r"\bHT_FALSE\b", "HT_TRUE"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"(?<=\S)\s\+\s(?=\w)", " - "), (r"(?<=\w)\s-\s(?=\w)", " + "), (r"\s\+\s1\b", ""), (r"\s-\s1\b", ""), (r"\+\+(?!\))", "--"), (r"\+=", "="), (r"-=", "="), (r"\*=", "="),
    (r"\bnotify_all\b", "notify_one"), (r"\bcontinue;", "break;"), (r"\bbreak;", ";"), (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])(2|4|8|16|32|128|1024|4096)u?(?![\w.])", "1"),
    (r"if \((?!defined)(.*)\)$", r"if (!(\1))"), (r"if \((?!defined)(.*)\)$", r"if (1)"), (r"if \((?!defined)(.*)\)$", r"if (0)"), (r"<<", ">>"), (r"/ ", "* "), (r"% ", "/ "),
]
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def mutants():
    import glob
    out = []
    for pat in FILES:
        for f in sorted(glob.glob(os.path.join(REPO, pat))):
            rel = f[len(REPO) + 1:]
            skip = 0
            if "/benchmark" in rel: continue
            for n, line in enumerate(open(f).read().split("\n")):
                s = line.strip()
                if re.match(r"#\s*if.*(_WIN32|POSIX|WIN32|MSVC|APPLE)", s) and not re.match(r"#\s*ifndef", s): skip = 1
                elif skip and re.match(r"#\s*(else|endif|elif)", s): skip = 0
                if skip or s.startswith(("//", "/*", "*", "#include", "#if", "#el", "#en", "#pragma", "static const", "template", "assert")) or not s: continue
                code = re.sub(r'"(\\.|[^"\\])*"', lambda m: "\x01" * len(m.group(0)), line)
                code = re.sub(r"//.*|/\*.*?\*/", lambda m: "\x01" * len(m.group(0)), code)
                seen = set()
                for k, (p, r) in enumerate(OPS):
                    for m in re.finditer(p, code):
                        new = line[:m.start()] + m.expand(r) .replace("\x01", "") + line[m.end():]
                        if "\x01" in m.expand(r) and "\\1" in r:
                            new = line[:m.start()] + re.sub(p, r, line[m.start():]) 
                        if new != line and new not in seen:
                            seen.add(new); out.append((rel, n, "op%d" % k, new))
                if re.match(r"^[\w>\-.\[\]()*&:, \x01+!/<]*;\s*\\?$", code.strip()) and not re.match(r"^(return|break|continue|goto|[\w:<>*& ]+\s+\*?\w+(\[.*\])?\s*(=.*)?;|case|using|typedef|HT_DECL)", s):
                    out.append((rel, n, "del", re.match(r"\s*", line).group(0) + (";" + (" \\" if s.endswith("\\") else ""))))
                elif re.match(r"^\S+(\.|->)?\S* = .*;$", s) and not re.match(r"^(const|auto|int|size_t|char|std)\b", s):
                    out.append((rel, n, "del", re.match(r"\s*", line).group(0) + ";"))
    return out
def props_of(rel):
    for p, l in PROPS:
        if re.search(p, rel): return l.split()
    return []
def main():
    ap = argparse.ArgumentParser(); ap.add_argument("cmd"); ap.add_argument("out", nargs="?"); ap.add_argument("--part", default="0/1"); ap.add_argument("--files", default=".")
    ap.add_argument("--workers", default="4"); ap.add_argument("--stage", default="all"); ap.add_argument("--recheck"); ap.add_argument("--verif", default="/verif"); a = ap.parse_args()
    ms = [m for m in mutants() if re.search(a.files, m[0])]
    if a.cmd == "list":
        from collections import Counter
        print(len(ms)); print(Counter(m[0] for m in ms)); return
    i, n = map(int, a.part.split("/"))
    ms = [m for k, m in enumerate(ms) if k % n == i]
    W = "/tmp/mut-%d-%d" % (os.getpid(), i); R = W + "/repo"; V = W + "/verif"
    os.makedirs(W); sh("cp -a %s %s; rm -rf %s/_build" % (REPO, R, R))
    sh("mkdir %s; cd %s && cp -a check.py harnesses.py mc h known_findings.txt tools %s" % (V, a.verif, V)); os.makedirs(V + "/evidence", exist_ok=True)
    env = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++")
    B = R + "/_build"
    r = sh("cmake -S %s -B %s -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DCMAKE_C_FLAGS='-Wno-error -w -O1' '-DCMAKE_CXX_FLAGS=-Wno-error -w -O1 -include stdint.h' -DCMAKE_MODULE_PATH=/opt/vp/support/cmake -DENABLE_TESTS=ON -DHT_PLATFORM_FEATURE_ALLOC_HOOKS_ENABLED=ON -DHT_PLATFORM_FEATURE_ALLOC_HOOKS_SOURCE=%s/lib/platform/linux/alloc_hooks.c && ninja -C %s -j4" % (R, B, R, B), env=env)
    if r.returncode: print(r.stdout[-3000:]); sys.exit(1)
    out = open(a.out, "a")
    old = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l); old.add((d["file"], d["line"], d["new"]))
    want = None
    if a.recheck:
        want = [json.loads(l) for l in open(a.recheck)]
        want = {(d["file"], d["line"], d["new"]) for d in want if d["result"] in ("MISSED", "noanswer")}
    for rel, ln, op, new in ms:
        if (rel, ln + 1, new.strip()) in old: continue
        if want is not None and (rel, ln + 1, new.strip()) not in want: continue
        p = os.path.join(R, rel); src = open(p).read(); L = src.split("\n"); orig = L[ln]; L[ln] = new
        d = dict(file=rel, line=ln + 1, op=op, old=orig.strip(), new=new.strip())
        open(p, "w").write("\n".join(L))
        try:
            r = sh("ninja -C %s -j4" % B, env=env)
            if r.returncode: d["result"] = "nocompile"
            else:
                os.makedirs(B + "/tw", exist_ok=True)
                r = sh("cd %s/tw && unshare -Urn sh -c 'ip link set lo up; timeout -k 5 60 %s/tests/hawktracer_gtest_tests && timeout -k 5 20 %s/tests/lib/hawktracer_destroy_timeline_after_uninit_tests'" % (B, B, B))
                if r.returncode: d["result"] = "tests"
                else:
                    d["result"] = "MISSED"
                    for pr in props_of(rel):
                        t = time.time()
                        r = sh("timeout -k 5 400 python3 %s/check.py %s --tier quick --workers %s" % (V, pr, a.workers), env=dict(os.environ, VERIF_REPO=R))
                        d.setdefault("t", {})[pr] = round(time.time() - t)
                        if r.returncode == 1: d["result"] = "caught"; d["by"] = pr; d["msg"] = [x for x in r.stdout.splitlines() if "VIOLATION" in x or "violat" in x][:2]; break
                        if r.returncode: d["result"] = "noanswer"; d["msg"] = r.stdout[-400:]; break
                    sh("cd %s/build && find . -name 'p??_*' -mmin +20 -delete; find obj -mmin +120 -delete" % V)
        finally:
            open(p, "w").write(src)
        out.write(json.dumps(d) + "\n"); out.flush()
    shutil.rmtree(W)
main()
