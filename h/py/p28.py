import importlib.util, io, labelmap, mc, os, re, shutil, warnings
warnings.simplefilter("ignore")
spec = importlib.util.spec_from_file_location("generate_tracepoint_labels", os.environ.get("VERIF_REPO", "/repo") + "/tools/generate_tracepoint_labels.py")
tool = importlib.util.module_from_spec(spec); spec.loader.exec_module(tool)
OUT = {"cpp": "labels.h", "lua": "labels.lua", "map": "labels.map"}
def generate(files, langs=("cpp", "lua"), want_map=True, extra=()):
    """files: {relative path: bytes}; returns {language: {label: id}} as read from the outputs, None where there is none, and the map"""
    d = mc.scratch() + "/g"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/src"); os.makedirs(d + "/out")
    for f, b in files.items():
        os.makedirs(os.path.dirname(d + "/src/" + f), exist_ok=True)
        with open(d + "/src/" + f, "wb") as o: o.write(b)
    argv = []
    for l in ("cpp", "lua"):
        argv += ["--search-%s-dir" % l, d + "/src"]
        if l in langs: argv += ["--out-%s-file" % l, d + "/out/" + OUT[l]]
    if want_map: argv += ["--output-map", d + "/out/labels.map"]
    tool.run_program(argv + list(extra))
    out = {}
    for l in ("cpp", "lua", "map"):
        p = d + "/out/" + OUT[l]; there = l in langs or (l == "map" and want_map)
        if os.path.exists(p) != there: mc.fail("output %s %s" % (OUT[l], "is missing" if there else "was written without being asked for"))
        if not there: out[l] = None; continue
        with open(p) as f: t = f.read()
        if l == "cpp": pairs = re.findall(r"^#define\s+hawktracer_autogen_tracepoint_label_(\w+)\s+(\d+)$", t, re.M)
        elif l == "lua":
            m = re.match(r"local ([\w,]*) = ([\d,]*)\n$", t)
            if not m: mc.fail("the Lua file cannot be read: %r" % t[:200])
            a, b = m.group(1).split(","), m.group(2).split(",")
            if len(a) != len(b): mc.fail("%d Lua names for %d numbers" % (len(a), len(b)))
            pairs = [x for x in zip(a, b) if x[0]]
        else: pairs = [(x.split(" ")[0], x.split(" ")[1], x.split(" ")[2]) for x in t.splitlines()]
        out[l] = pairs
    return out, d + "/out/labels.map"
def check(files, want, langs=("cpp", "lua"), want_map=True, extra=()):
    """want: {language: set of labels in the sources}"""
    out, path = generate(files, langs, want_map, extra); ids = {}; used = set()
    for l in ("cpp", "lua"):
        if out[l] is None: continue
        names = [p[0] for p in out[l]]
        if sorted(names) != sorted(want[l]): mc.fail("labels of %s: %r, expected %r" % (l, sorted(names), sorted(want[l])))
        for n, i in out[l]:
            if int(i) in used or int(i) == 0: mc.fail("the number %s of %s is used twice or zero" % (i, n))
            used.add(int(i)); ids[int(i)] = (l, n)
    if used and used != set(range(1, len(used) + 1)): mc.fail("the numbers are not 1 to %d: %r" % (len(used), sorted(used)))
    if want_map:
        m = {int(i): (l, n) for l, n, i in out["map"]}
        if len(m) != len(out["map"]) or m != ids: mc.fail("the map says %r, the generated files %r" % (out["map"], ids))
        order = sorted(ids); got = labelmap.lookup(path, order)
        if got != [ids[i] for i in order]: mc.fail("the client reads the map as %r, not %r" % (got, [ids[i] for i in order]))
    mc.step(); mc.outcome(repr(sorted(ids.items())).encode())
CPP = [("HT_TP_GLOBAL_SCOPED_INT(%s);", 1), ("    HT_TP_GLOBAL_SCOPED_INT(%s);", 1), ("\tHT_TP_GLOBAL_SCOPED_INT  (%s) ;  ", 1), ("HT_TP_GLOBAL_SCOPED_INT(%s)", 0), ("int HT_TP_GLOBAL_SCOPED_INT(%s);", 0), ("// HT_TP_GLOBAL_SCOPED_INT(%s);", 0), ("XHT_TP_GLOBAL_SCOPED_INT(%s);", 0), ("HT_TP_GLOBAL_SCOPED_STRING(%s);", 0), ("HT_TP_GLOBAL_SCOPED_INT(%s);\r", 1)]
LUA = [("--@TracepointStart %s", 1), ("  --@TracepointStart   %s  ", 1), ("\t--@TracepointStart\t%s", 1), ("--@TracepointStart%s", 0), ("x --@TracepointStart %s", 0), ("--@TracepointEnd %s", 0), ("-- @TracepointStart %s", 0), ("--@TracepointStart %s x", 0), ("--@TracepointStart %s\r", 1)]
LABELS = ["ok", "a", "_", "_x", "Z9", "a" * 200, "l_1", "A", "9a", "1", "a-b", "a b", "\u00e9", ""]
def lines():
    """every form of a line x every label x what stands around it"""
    lua = mc.choose(2); form, good = (LUA if lua else CPP)[mc.choose(9)]; label = LABELS[mc.choose(len(LABELS))]; around = mc.choose(4); ok = good and re.match(r"[A-Za-z_][A-Za-z_0-9]*$", label, re.A)
    if not label and form.endswith("x"): mc.discard(); return
    b = (form % label).encode(); b = {0: b, 1: b + b"\n", 2: b"int x;\n" + b + b"\nint y;\n", 3: "\u00e9".encode("latin-1") + b" not UTF-8\n" + b + b"\n"}[around]
    mc.note("%r " % b[:100]); check({"f.lua" if lua else "f.cpp": b}, {"cpp": {label} if ok and not lua else set(), "lua": {label} if ok and lua else set()})
PATHS = ["a.c", "b.cpp", "c.h", "d.hpp", "sub/e.c", "sub/deep/f.lua", "g.lua", "h.txt", "i", "lua"]
def sources():
    """every sequence of labels over every set of places, with repeated labels in one and several files and languages"""
    n = 3; files = {}; want = {"cpp": set(), "lua": set()}; log = []
    for i in range(n):
        p = mc.choose(len(PATHS) + 1)
        if p == 0: break
        p = PATHS[p - 1]; label = ("x1", "y", "B_", "a")[mc.choose(4 if mc.thorough() else 2)]; lang = "lua" if p.endswith(".lua") else "cpp" if "." in p and p[-4:] != ".txt" else None
        for l, form in (("cpp", CPP), ("lua", LUA)): files[p] = files.get(p, b"") + (form[0][0] % label).encode() + b"\n"
        if lang: want[lang].add(label)
        log.append(p + ":" + label)
    mc.note(" ".join(log) + " "); check(files, want)
def options():
    """every subset of the outputs, several labels"""
    n = mc.choose(30); m = mc.choose(4); langs = [l for l in ("cpp", "lua") if mc.choose(2)]; want_map = mc.choose(2)
    c = ["c%d" % i for i in range(n)]; l = ["c%d" % (i * 2) for i in range(m)]; mc.note("%d C labels, %d Lua labels, outputs %s map %d " % (n, m, langs, want_map))
    check({"a.c": b"".join((CPP[0][0] % x).encode() + b"\n" for x in c), "b.lua": b"".join((LUA[0][0] % x).encode() + b"\n" for x in l)}, {"cpp": set(c), "lua": set(l)}, langs, want_map)
