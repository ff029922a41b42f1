import mc, gc, os, sys
from trace import decode
class Named(Exception): pass
def in_child(work):
    """runs work() in a process of its own that ends the way a Python program ends; returns what work() returned"""
    for x in os.listdir(mc.scratch()): os.unlink(mc.scratch() + "/" + x)
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        os.close(r)
        try: out = work()
        except BaseException as e: out = e
        os.write(w, repr(out).encode("utf-8", "backslashreplace")); os.close(w); raise SystemExit(0)
    os.close(w); data = b""
    while True:
        x = os.read(r, 65536)
        if not x: break
        data += x
    os.close(r); st = os.waitpid(pid, 0)[1]
    if st != 0: mc.fail("the program ended with status %#x %s" % (st, data.decode()[:200]))
    return data.decode()
def read(path):
    with open(path, "rb") as f: b = f.read()
    try: return decode(b)
    except Exception as e: mc.fail("the trace cannot be decoded: %r" % e)
def spans(events):
    """the traced calls, by thread, in the order they ended: (name, start, end)"""
    names = {}; out = {}
    for k, d in events:
        if k == "HT_StringMappingEvent":
            if names.get(d["identifier"], d["label"]) != d["label"]: mc.fail("one label has two names: %r and %r" % (names[d["identifier"]], d["label"]))
            names[d["identifier"]] = d["label"]
    for k, d in events:
        if k == "HT_CallstackIntEvent":
            if d["label"] not in names: mc.fail("a call has a label without a name")
            out.setdefault(d["thread_id"], []).append((names[d["label"]], d["timestamp"], d["timestamp"] + d["duration"]))
    return out
def check_calls(got, want, what):
    e = wrong(got, want, what)
    if e: mc.fail(e)
def wrong(got, want, what):
    """want: [(name, number of traced calls inside it)] in the order the calls end"""
    if [x[0] for x in got] != [x[0].encode("utf-8", "backslashreplace") for x in want]: return("%s: traced calls %r, expected %r" % (what, [x[0] for x in got], want))
    for i, (name, inner) in enumerate(want):
        for j in range(i):
            if j >= i - inner:
                if got[j][1] < got[i][1] or got[j][2] > got[i][2]: return("%s: call %d %r is not inside call %d %r" % (what, j, got[j], i, got[i]))
            elif got[j][2] > got[i][1] and got[j][1] > got[i][1]: return("%s: call %d %r starts in call %d %r" % (what, j, got[j], i, got[i]))
KINDS = ("f", "raises", "kw", "method", "static", "partial", "object", "plain", "off", "on", "lambda", "klass")
TRACED = {"f": "f", "raises": "g", "kw": "f", "method": "method", "static": "static", "object": None, "partial": None, "plain": None, "lambda": "<lambda>", "klass": "K"}
def forest(budget, kinds):
    out = []
    while budget[0] > 0:
        k = mc.choose(len(kinds) + 1)
        if k == 0: break
        budget[0] -= 1; k = kinds[k - 1]
        out.append((k, [] if k in ("off", "on") else forest(budget, kinds)))
    return out
def program(tree, deco, core):
    """runs the tree of calls with the functions decorated by deco; the result describes everything the functions saw"""
    import functools
    def f(*a, **k): return ("f", a, sorted(k.items()), run(a[0]))
    def g(t): r = run(t); raise Named("g", r)
    f = deco(f); g = deco(g)
    class C:
        @deco
        def method(self, t, *, other=None): return ("method", type(self).__name__, other, run(t))
        @staticmethod
        @deco
        def static(t): return ("static", run(t))
        def __call__(self, t): return ("object", run(t))
    class K:
        def __init__(self, t): self.r = run(t)
    part = deco(functools.partial(lambda x, t: ("partial", x, run(t)), 3)); obj = deco(C()); lam = deco(lambda t: ("lambda", run(t))); made = deco(K); c = C()
    def plain(t): return ("plain", run(t))
    def call(k, t):
        if k == "f": return f(t, 1, "two")
        if k == "kw": return f(t, b=2, a=[1])
        if k == "raises": return g(t)
        if k == "method": return c.method(t, other=7) if len(t) % 2 else c.method(t)
        if k == "static": return C.static(t)
        if k == "partial": return part(t)
        if k == "object": return obj(t)
        if k == "lambda": return lam(t)
        if k == "klass": return made(t).r
        if k == "plain": return plain(t)
        if k == "off": core and core.disable_tracing()
        if k == "on": core and core.enable_tracing()
        return k
    def run(t):
        out = []
        for k, sub in t:
            try: out.append(call(k, sub))
            except Named as e: out.append(("raised", e.args))
        return out
    return run(tree)
def model(tree, on):
    """-> [(name, inner)] of the traced calls in the order they end, tracing afterwards"""
    out = []
    for k, sub in tree:
        if k in ("off", "on"): on = k == "on"; continue
        rec = on and TRACED[k] is not None; inner, on = model(sub, on); out += inner
        if rec: out.append((TRACED[k], len(inner)))
    return out, on
def start(core, file, size=None):
    core.init(); core.enable_trace_decorator(); core.enable_tracing()
    if size is None: core.register_file_listener(file)
    else: core.register_file_listener(file, size)
def same(got, want):
    if got != want: mc.fail("the program behaves differently when traced: %s instead of %s" % (got[:300], want[:300]))
def trees():
    """every tree of calls"""
    tree = forest([4 if mc.thorough() else 3], KINDS[:-2]); path = mc.scratch() + "/t"; mc.note("%s " % (tree,))
    def work():
        import core
        start(core, path); r = program(tree, core.trace, core); return r
    same(in_child(work), repr(program(tree, lambda f: f, None)))
    want, on = model(tree, True); s = spans(read(path))
    if len(s) > 1: mc.fail("calls of one thread were recorded for %d threads" % len(s))
    check_calls(next(iter(s.values()), []), want, "tree"); mc.step(); mc.outcome(repr(want).encode()); mc.state(repr(tree).encode())
def kinds():
    """every pair of kinds of callables, with every buffer size"""
    size = (1, 30, 64, 1000, 4096, None)[mc.choose(6)]; tree = [(KINDS[mc.choose(len(KINDS))], [(KINDS[mc.choose(len(KINDS))], [])]) for i in range(1)]; n = (1, 60)[mc.choose(2)]; path = mc.scratch() + "/t"; mc.note("%s x%d size %s " % (tree, n, size))
    def work():
        import core
        start(core, path, size); r = [program(tree, core.trace, core) for i in range(n)]; return r
    same(in_child(work), repr([program(tree, lambda f: f, None) for i in range(n)]))
    want = []; on = True
    for i in range(n): x, on = model(tree, on); want += x
    check_calls(next(iter(spans(read(path)).values()), []), want, "kinds"); mc.step(); mc.outcome(repr((want, size)).encode())
NAMES = ["f", "", "\u00e9\u4e2d", "\U0001F600", "x" * 100, "y" * 5000, "\ud800", "a b\"\\\n", "f" + "", None, 5, [], b"bytes", "raise"]
class Callee:
    def __init__(self, name): self.name = name
    def __call__(self, x): return x + 1
    def __getattr__(self, a):
        if a != "__name__" or self.name == "raise" or self.name is None: raise (ValueError("no name") if self.name == "raise" else AttributeError(a))
        return self.name
class Str(str): pass
def names():
    """every pair of names a callable may have, as a function or as any other callable"""
    i, j = mc.choose(len(NAMES)), mc.choose(len(NAMES)); path = mc.scratch() + "/t"; a, b = NAMES[i], NAMES[j]; mc.note("%s %s " % (ascii(a)[:30], ascii(b)[:30]))
    kind = mc.choose(2)
    def make(n):
        if kind == 0 and isinstance(n, str) and n != "raise":
            def f(x): return x + 1
            f.__name__ = (n + " ")[:-1]      # a string object of its own
            return f
        return Callee(n)
    def work():
        import core
        start(core, path); out = []
        fs = [core.trace(make(a)), core.trace(make(b)), core.trace(make(a))]
        for r in range(2):
            for f in fs: out.append(f(r))
        del fs, f; gc.collect()
        for x in range(3):                  # names that come and go, possibly at the address of an earlier one
            m = core.trace(make(other(a, x))); out.append(m(x)); del m; gc.collect()
        more = core.trace(make(b)); out.append(more(1)); return out
    def other(n, x): return n + str(x) if isinstance(n, str) and n != "raise" else n
    same(in_child(work), repr([1, 1, 1, 2, 2, 2, 1, 2, 3, 2]))
    ok = lambda n: isinstance(n, str) and n != "raise"
    want = [(n, 0) for n in (a, b, a, a, b, a, other(a, 0), other(a, 1), other(a, 2), b) if ok(n)]
    ev = read(path); check_calls(next(iter(spans(ev).values()), []), want, "names"); mc.step(); mc.outcome(repr(want).encode())
    n = sum(k == "HT_StringMappingEvent" for k, d in ev)
    if n != len({x for x, _ in want}): mc.fail("%d names for %d functions" % (n, len({x for x, _ in want})))
def setup():
    """every sequence of calls of the module, for every value of HT_PYTHON_TRACE_ENABLED"""
    env = (None, "1", "0", "on")[mc.choose(4 if mc.thorough() else 3)]; n = 5 if mc.thorough() else 4; ops = []
    for i in range(n):
        o = mc.choose(8)
        if o == 0: break
        if o < 6 and ops and ops[-1] == o: mc.discard()
        ops.append(o)
    pa, pb = mc.scratch() + "/a", mc.scratch() + "/b"; NAME = (0, "init", "decorator on", "decorator off", "tracing on", "tracing off", "file", "call")
    mc.note("env %s: %s " % (env, ", ".join(NAME[o] for o in ops)))
    init = deco = on = env in ("1", "on"); files = []; want = []; expect = []; fs = []
    for o in ops + [7]:
        if o == 1: init = True
        elif o == 2: deco = True
        elif o == 3: deco = False
        elif o == 4: on = True
        elif o == 5: on = False
        elif o == 6:
            expect.append(init)
            if init: files.append((pa, pb)[len(files) % 2])
        else:
            fs.append(deco); want += [("f%d" % i, 0) for i, d in enumerate(fs) if d and on and init]; expect.append(len(fs))
    if len(files) > 2: mc.discard()
    def work():
        if env is None: os.environ.pop("HT_PYTHON_TRACE_ENABLED", None)
        else: os.environ["HT_PYTHON_TRACE_ENABLED"] = env
        import core
        out = []; fs = []; nfile = 0
        for o in ops + [7]:
            if o == 1: core.init()
            elif o == 2: core.enable_trace_decorator()
            elif o == 3: core.disable_trace_decorator()
            elif o == 4: core.enable_tracing()
            elif o == 5: core.disable_tracing()
            elif o == 6:
                try: core.register_file_listener((pa, pb)[nfile % 2]); nfile += 1; out.append(True)
                except Exception: out.append(False)
            else:
                def f(): return 1
                f.__name__ = "f%d" % len(fs); fs.append(core.trace(f)); out.append(sum(x() for x in fs))
        return out
    same(in_child(work), repr(expect)); mc.step(); mc.outcome(repr((want, expect)).encode())
    for p in (pa, pb):
        if p in files:
            s = spans(read(p))
            if len(s) > 1: mc.fail("calls of one thread were recorded for %d threads" % len(s))
            check_calls(next(iter(s.values()), []), want, os.path.basename(p))
        elif os.path.exists(p): mc.fail("a file nobody asked for: " + p)
def threads():
    """every pair of trees of calls, each in a thread of its own, while the main thread runs a third"""
    kinds = ("f", "raises", "method", "plain"); t = [forest([2], kinds) for i in range(3 if mc.thorough() else 2)]; path = mc.scratch() + "/t"; mc.note("%s " % (t,))
    def work():
        import core, threading
        start(core, path); out = [None] * len(t)
        def body(i): out[i] = program(t[i], core.trace, core)
        th = [threading.Thread(target=body, args=(i,)) for i in range(1, len(t))]
        for x in th: x.start()
        body(0)
        for x in th: x.join()
        return out
    same(in_child(work), repr([program(x, lambda f: f, None) for x in t])); s = spans(read(path)); want = [model(x, True)[0] for x in t]
    left = [w for w in want if w]
    for tid, got in s.items():
        m = [w for w in left if not wrong(got, w, "")]
        if not m: mc.fail("no thread made the calls %r" % (got,))
        left.remove(m[0])
    if left: mc.fail("the calls of a thread are missing: %r" % (left[0],))
    mc.step(); mc.outcome(repr(want).encode())
