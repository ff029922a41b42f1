import mc, client, gc, sys, time
from trace import *
def path(n): return mc.scratch() + "/" + n
def same(got, want):
    """got: (name, dict) from the client; want: (name, values)"""
    if not isinstance(got, tuple) or len(got) != 2: return False
    if got[0] != want[0] or not isinstance(got[1], dict): return False
    for k, v in want[1].items():
        if k not in got[1]: return False
        if isinstance(v, bytes):
            if not isinstance(got[1][k], str): return False
            try: t = v.decode()
            except UnicodeDecodeError: continue
            if got[1][k] != t: return False
        elif got[1][k] != v or type(got[1][k]) is not type(v): return False
    return set(got[1]) == set(want[1])
def show(e): return ascii(e)[:300]
def drain(c):
    out = []
    while True:
        e = c.poll_event()
        if e is None: return [x for x in out if x[0] not in OWN]
        out.append(e)
def compare(got, want, what, prefix=False):
    for i, w in enumerate(want):
        if i >= len(got):
            if prefix: break
            mc.fail("%s: event %d is missing: %s" % (what, i, show(w)))
        if not same(got[i], w): mc.fail("%s: event %d: expected %s, got %s" % (what, i, show(w), show(got[i])))
    if len(got) > len(want): mc.fail("%s: an event too many: %s" % (what, show(got[len(want)])))
    mc.step(); mc.outcome(repr(got).encode("utf-8", "surrogatepass")); mc.state(repr(got).encode("utf-8", "surrogatepass"))
def read_all(t, mode, what):
    """mode 0: poll after the end, 1: poll while reading, 2: callback"""
    p = t.write(path("t")); c = client.Client(); got = []
    if mode == 2:
        def cb(name, data): got.append((name, data))
        refs = sys.getrefcount(cb); c.start(p, cb); c.wait_for_eos(); c.stop(); del c; c = None
        if sys.getrefcount(cb) != refs: mc.fail("%s: %d references to the callback before, %d after" % (what, refs, sys.getrefcount(cb)))
        got = [x for x in got if x[0] not in OWN]
    elif mode == 0:
        c.start(p); c.wait_for_eos()
        if c.eos() is not True: mc.fail("%s: the end is not reported" % what)
        got = drain(c)
    else:
        c.start(p)
        while True:
            end = c.eos(); e = c.poll_event()
            if e is not None: got.append(e)
            elif end: break
        got = [x for x in got if x[0] not in OWN]
    compare(got, t.expected, what)
    del c
BOUND = {n: sorted({0, 1, 2, 127 % (1 << (8 * s)), (1 << (8 * s - 1)) - 1} | ({-1, -2, -(1 << (8 * s - 1)), -(1 << (8 * s - 1)) + 1, -128} if d == SIGNED else {(1 << (8 * s - 1)), (1 << (8 * s)) - 1, (1 << (8 * s)) - 2, 128, 200})) for n, (f, s, d) in INTS.items()}
def values():
    """every boundary value of every field kind, next to a second field of every kind"""
    types = list(INTS); ty = types[mc.choose(len(types))]; v = BOUND[ty]; i = mc.choose(len(v)); mode = mc.choose(3); o = types[mc.choose(len(types))]
    mc.note("%s=%d, other %s, mode %d " % (ty, v[i], o, mode))
    t = Trace().klass("K", (o, "first"), (ty, "x"), ("string", "s")).event("K", BOUND[o][0], v[i], "text").event("K", BOUND[o][-1], v[i], "")
    read_all(t, mode, "%s=%d" % (ty, v[i]))
def texts():
    """every byte, every length in a range, every pair of special bytes"""
    kind = mc.choose(3); mode = mc.choose(3)
    if kind == 0: s = bytes([1 + mc.choose(255)])
    elif kind == 1: n = mc.choose(80 if mc.thorough() else 40); s = b"x" * n
    else:
        parts = [b"a", b"\xc3", b"\xa9", b"\xf0\x9f\x98\x80", b"\xe2\x82", b"\xff", b"\"", b"\\", b"\n"]; s = b"".join(parts[mc.choose(len(parts))] for _ in range(3 if mc.thorough() else 2))
    mc.note("%r mode %d " % (s, mode))
    t = Trace().klass("K", ("uint8_t", "before"), ("string", "s"), ("uint32_t", "after")).event("K", 1, s, 0xfffffffe).event("K", 2, s + s, 3)
    read_all(t, mode, "text %r" % s)
def histories():
    """every sequence of events over three classes"""
    n = mc.choose(5 if mc.thorough() else 4); mode = mc.choose(3); t = Trace().klass("A", ("int64_t", "a")).klass("B", ("string", "s")).klass("C")
    for i in range(n):
        k = mc.choose(3)
        if k == 0: t.event("A", -i - 1, ts=i)
        elif k == 1: t.event("B", b"t%d" % i)
        else: t.event("C", ts=2**64 - 1 - i)
    read_all(t, mode, "history"); mc.note("%s mode %d " % ([e[0] for e in t.expected], mode))
class Callee:
    def __init__(self, got): self.got = got
    def method(self, k, d): self.got.append((k, d))
    def __call__(self, k, d): self.got.append((k, d))
def callbacks():
    """every kind of callable; callbacks that raise at every subset of the events, that poll, that ask for the end, with other arguments"""
    t = Trace().klass("K", ("int64_t", "a")).event("K", -1).event("K", 2).event("K", -3); p = t.write(path("t")); c = client.Client(); got = []; kind = mc.choose(7); raising = mc.choose(8)
    def seen(k, d):
        got.append((k, d))
        if kind == 4 and c.poll_event() is not None: mc.fail("poll_event() gave an event though there is a callback")
        if kind == 5 and not isinstance(c.eos(), bool): mc.fail("eos() gave no boolean")
        if k == "K" and raising >> (abs(d["a"]) - 1) & 1: raise ValueError("from the callback")
        return d
    mc.note("kind %d raising %d " % (kind, raising))
    if kind == 0: c.start(p, seen)
    elif kind == 1: c.start(p, Callee(got).method)
    elif kind == 2: c.start(p, Callee(got))
    elif kind == 3: c.start(p, got.append)          # wrong number of arguments: reported, not called
    else: c.start(p, lambda *a: seen(*a))
    c.wait_for_eos(); c.stop()
    if kind == 6: c.start(p, lambda k, d: got.append((k, d))); c.wait_for_eos(); c.stop()
    compare([x for x in got if x[0] not in OWN], [] if kind == 3 else t.expected * (2 if kind == 6 else 1), "callback")
    del c; gc.collect()
def reentrant():
    """the callback stops, restarts, drops or waits for its own client at every event, then the program waits, stops, drops or restarts it"""
    t = Trace().klass("K", ("int64_t", "a"))
    for i in range(3): t.event("K", i)
    u = Trace().klass("L", ("string", "s")).event("L", b"x"); p = t.write(path("t")); q = u.write(path("u")); at = mc.choose(3); action = mc.choose(7); after = mc.choose(5); got = []; late = []; st = {"c": client.Client(), "stopped": False, "err": None}
    def seen(k, d):
        if st["stopped"]: late.append((k, d))
        got.append((k, d))
        if k == "K" and d["a"] == at and st["c"] is not None:
            cl = st["c"]                # the program might drop it meanwhile
            if cl is None: return
            try:
                if action == 0: cl.stop(); st["stopped"] = after != 3       # after 3: the program might have given the client another stream, which is the one stopped here
                elif action == 1: cl.start(q, lambda k, d: late.append((k, d)) if k == "K" else None)
                elif action == 2: cl.start(q)
                elif action == 3: st["c"] = None
                elif action == 4: cl.wait_for_eos()
                elif action == 5: cl.start(q); cl.start(p); cl.stop()
                else: cl.stop(); st["c"] = None
                st["acted"] = True
            except Exception as e: st["err"] = e
    mc.note("at %d action %d after %d " % (at, action, after)); c = st["c"]; c.start(p, seen)
    if after == 0: c.wait_for_eos()
    elif after == 1: c.stop()
    elif after == 2: c.wait_for_eos(); c.stop()
    elif after == 3: c.start(q); c.wait_for_eos(); c.stop()
    del c; st["c"] = None; gc.collect()
    compare([x for x in got if x[0] not in OWN], t.expected, "reentrant", prefix=True)
    if late: mc.fail("callback after stop() or start(): %r" % (late,))
    if sum(1 for x in got if x[0] == "K") > at + 1 and action in (0, 1, 2, 5, 6) and after != 3 and st.get("acted"): mc.fail("callbacks went on after the callback stopped or restarted the client")
def abandon():
    """the client goes away (or is started again, or stopped) with every number of events still unread"""
    t = Trace().klass("K", ("int64_t", "a"), ("string", "s"))
    for i in range(mc.choose(4)): t.event("K", -i, "text %d" % i)
    if mc.choose(2): t.klass("unused", ("string", "s"))
    p = t.write(path("t")); c = client.Client(); c.start(p); c.wait_for_eos(); n = mc.choose(12); how = mc.choose(4); got = []
    for i in range(n):
        e = c.poll_event()
        if e is not None and e[0] not in OWN: got.append(e)
    mc.note("%d polled, then %s " % (n, ("del", "start", "stop and del", "stop and start")[how])); compare(got, t.expected, "abandon", prefix=True)
    if how >= 2: c.stop()
    if how & 1: c.start(p); c.wait_for_eos(); compare(drain(c), t.expected, "started again")
    del c; gc.collect()
def leaks():
    """reading a longer trace must not keep more memory than reading a shorter one (after warming up)"""
    mode = mc.choose(3); sizes = []
    for n in (40, 40, 200, 40, 200):
        t = Trace().klass("K", ("int64_t", "a"), ("string", "text"))
        for i in range(n): t.event("K", 10**12 + i, "a longer text %d" % i)
        gc.collect(); before = mc.heap(); read_all(t, mode, "leaks"); nevents = n; del t; gc.collect(); sizes.append((nevents, mc.heap() - before))
    small = min(s for n, s in sizes[1:] if n == 40); large = min(s for n, s in sizes[1:] if n == 200)
    mc.note("mode %d: %s " % (mode, sizes))
    if large - small > 160 * 50: mc.fail("memory kept after reading 40 events: %d bytes, 200 events: %d bytes" % (small, large))
def calls():
    """every sequence of calls on one client"""
    A = Trace().klass("A", ("int64_t", "a")).event("A", -5).event("A", 6); B = Trace().klass("B", ("string", "s")).event("B", b"x")
    pa, pb = A.write(path("a")), B.write(path("b")); n = 5 if mc.thorough() else 4
    c = client.Client(); cur = None; got = None; cb_got = None; log = []
    def check(final):
        if cur is None: return
        t, mode, stopped, waited = cur
        g = [x for x in (cb_got if mode else got) if x[0] not in OWN]
        compare(list(g), t.expected, "calls %s" % log, prefix=not (final and not stopped))
    def finish():
        if cur is None: return
        if not cur[2]:
            c.wait_for_eos()
            if not cur[1]:
                got.extend(drain(c))
        check(True)
    for i in range(n):
        op = mc.choose(9)
        if op == 0: break
        if op in (1, 2, 3):
            finish(); name = ("start a", "start b", "start a cb")[op - 1]; log.append(name)
            cur = [A if op != 2 else B, op == 3, False, False]; got = []; mine = []; cb_got = mine
            if op == 3: c.start(pa, lambda k, d, m=mine: m.append((k, d)))
            else: c.start(pa if op == 1 else pb)
        elif op == 4:
            log.append("poll")
            try: e = c.poll_event()
            except Exception:
                if cur is not None: raise
                e = None
            if cur is not None and e is not None:
                if cur[1]: mc.fail("poll_event returned an event though there is a callback")
                got.append(e)
            elif e is not None: mc.fail("an event before start")
        elif op == 5:
            log.append("wait")
            try: c.wait_for_eos()
            except Exception:
                if cur is not None: raise
        elif op == 6:
            log.append("eos")
            try: r = c.eos()
            except Exception:
                if cur is not None: raise
                r = True
            if not isinstance(r, bool): mc.fail("eos() returned %r" % (r,))
        elif op == 7:
            log.append("stop")
            try: c.stop()
            except Exception:
                if cur is not None: raise
            if cur: cur[2] = True; check(True)
        elif op == 8:
            log.append("bad"); ok = mc.choose(2)
            try:
                if ok: c.start(mc.scratch() + "/missing")
                else: c.start(pa, 5)
                mc.fail("a bad start was accepted")
            except TypeError: pass
        mc.step(); check(False)
    finish(); mc.note(" ".join(log) + " ")
    cur = None; del c; gc.collect()
