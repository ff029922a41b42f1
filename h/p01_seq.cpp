// P01: operation sequences on one timeline against a reference queue.
#include "seq.hpp"
#include "ref.hpp"
#include <deque>
#include <algorithm>
#include <memory>

struct Call { int listener; Bytes data; HT_Boolean ser; };
static std::vector<Call> calls;
static std::vector<std::unique_ptr<std::string>> keep;          // strings referenced by raw events
static void cb(TEventPtr e, size_t n, HT_Boolean ser, void* ud) { calls.push_back(Call{(int)(intptr_t)ud, Bytes((const char*)e, n), ser}); }

struct Ref
{
    bool ser; std::vector<int> listeners; int next_listener = 1;
    std::deque<Bytes> pending; size_t may_drop = 0; uint64_t nid = 1;
    // consumes the calls made during one operation
    void settle(const char* op, bool must_be_empty)
    {
        size_t i = 0;
        while (i < calls.size())
        {
            SEQ_CHECK(!listeners.empty(), "%s: a listener was called although none is registered", op);
            SEQ_CHECK(i + listeners.size() <= calls.size(), "%s: not every listener got the notification", op);
            std::vector<int> seen;
            for (size_t k = 0; k < listeners.size(); k++)
            {
                const Call& c = calls[i + k];
                SEQ_CHECK(c.data == calls[i].data, "%s: listeners got different data for one notification", op);
                SEQ_CHECK((c.ser != 0) == ser, "%s: wrong serialisation flag", op);
                seen.push_back(c.listener);
            }
            std::vector<int> want = listeners; std::sort(want.begin(), want.end()); std::sort(seen.begin(), seen.end());
            SEQ_CHECK(want == seen, "%s: a listener was notified twice or left out", op);
            const Bytes& d = calls[i].data;
            SEQ_CHECK(!d.empty(), "%s: empty notification", op);
            // leading events may have been handed over while nobody was listening
            size_t skip = 0; bool ok = false;
            for (; skip <= may_drop && !ok; skip++)
            {
                size_t p = 0, k = skip;
                while (p < d.size() && k < pending.size() && d.compare(p, pending[k].size(), pending[k]) == 0) { p += pending[k].size(); k++; }
                if (p == d.size()) { ok = true; pending.erase(pending.begin(), pending.begin() + k); may_drop = 0; break; }
            }
            SEQ_CHECK(ok, "%s: notification of %zu bytes is not a run of whole pending events (lost, repeated, altered, split or reordered): %s", op, d.size(), hexs(d).c_str());
            i += listeners.size();
        }
        calls.clear();
        if (listeners.empty()) may_drop = pending.size();
        if (must_be_empty) { SEQ_CHECK(pending.size() <= may_drop, "%s: %zu events were not delivered", op, pending.size() - may_drop); pending.clear(); may_drop = 0; }
        seq::step();
    }
};
static const char* keepstr(const std::string& s) { keep.emplace_back(new std::string(s)); return keep.back()->c_str(); }
static std::string txt(size_t n, unsigned salt) { std::string s(n, 'x'); for (size_t i = 0; i < n; i++) s[i] = 'A' + (salt * 5 + i) % 50; return s; }

// pushes an event of the given shape and appends what listeners must see
static void push(HT_Timeline* t, Ref& r, int shape)
{
    uint64_t id = r.nid++, ts = 1000000 + id * 17; Bytes b;
    auto head = [&](HT_Event* e, HT_EventKlass* k) { e->klass = k; e->timestamp = ts; e->id = id; b = ref_head(k->klass_id, ts, id); };
    auto fin = [&](void* e, size_t raw) { if (!r.ser) b.assign((char*)e, raw); r.pending.push_back(b); ht_timeline_push_event(t, (HT_Event*)e); };
    if (shape == 0) { EvTiny e; memset(&e, 0, sizeof e); head(&e.base, ht_EvTiny_get_event_klass_instance()); e.v = id; put(b, e.v); fin(&e, sizeof e); }                        // 21
    else if (shape == 1 || shape == 2 || shape == 3)
    {   // 32, 129 and 157 bytes: fits; larger than every small buffer; crosses the 128-byte direct path
        EvMsg e; memset(&e, 0, sizeof e); head(&e.base, ht_EvMsg_get_event_klass_instance()); e.who = id; e.seq = shape; e.text = keepstr(txt(shape == 1 ? 3 : shape == 2 ? 100 : 128, id));
        put(b, e.who); put(b, e.seq); puts0(b, e.text); fin(&e, sizeof e);
    }
    else if (shape == 4)
    {
        EvDerived2 e; memset(&e, 0, sizeof e); head(&e.base.base.base, ht_EvDerived2_get_event_klass_instance());
        e.base.base.who = 7; e.base.base.seq = id; e.base.base.text = keepstr("q"); e.base.extra = -3; e.base.more = keepstr(""); e.last = keepstr("zz"); e.end = ~id;
        put(b, e.base.base.who); put(b, e.base.base.seq); puts0(b, "q"); put(b, e.base.extra); puts0(b, ""); puts0(b, "zz"); put(b, e.end); fin(&e, sizeof e);
    }
    else { HT_Event e; memset(&e, 0, sizeof e); head(&e, ht_HT_Event_get_event_klass_instance()); fin(&e, sizeof e); }                                                              // 20
}
static void once()
{
    static bool done = false; if (done) return; done = true;
    ht_init(0, nullptr);
    ht_EvTiny_register_event_klass(); ht_EvMsg_register_event_klass(); ht_EvDerived_register_event_klass(); ht_EvDerived2_register_event_klass();
}
static const char* shape_name[] = {"tiny", "msg32", "msg129", "msg157", "derived", "base"};
static void reg(HT_Timeline* t, Ref& r)
{
    int l = r.next_listener++;
    SEQ_CHECK(ht_timeline_register_listener(t, cb, (void*)(intptr_t)l) == HT_ERR_OK, "registration failed");
    r.listeners.push_back(l);
}
static void state_of(const Ref& r, size_t cap)
{
    Bytes s; put(s, cap); put(s, r.ser); put(s, r.listeners.size()); put(s, r.may_drop);
    for (auto& p : r.pending) put(s, p.size());
    seq::state(s);
}
static void sequences(bool safe)
{
    once(); calls.clear(); keep.clear();
    static const size_t caps_q[] = {0, 1, 20, 21, 31, 32, 41, 42, 53, 64, 128, 129, 157, 200, 1024};
    Ref r; size_t cap = caps_q[seq::choose(sizeof caps_q / sizeof *caps_q)];
    r.ser = seq::choose(2) == 0;
    if (!r.ser) cap = cap * 2;                       // raw structs are larger
    HT_Timeline* t = ht_timeline_create(cap, safe, r.ser, nullptr, nullptr);
    SEQ_CHECK(t, "timeline not created");
    seq::note("capacity %zu %s:", cap, r.ser ? "serialised" : "raw");
    if (seq::choose(2) == 0) { reg(t, r); seq::note(" register"); }
    int depth = seq::thorough() ? 6 : 4;
    for (int d = 0; d < depth; d++)
    {
        // 0 stop here, 1..6 push shapes, 7 flush, 8 register, 9 unregister all
        int op = seq::choose(10);
        if (op == 0) break;
        if (op <= 6) { seq::note(" push-%s", shape_name[op - 1]); push(t, r, op - 1); r.settle("push", false); }
        else if (op == 7) { seq::note(" flush"); ht_timeline_flush(t); r.settle("flush", true); }
        else if (op == 8) { seq::note(" register"); reg(t, r); r.settle("register", false); }
        else { seq::note(" unregister"); ht_timeline_unregister_all_listeners(t); SEQ_CHECK(calls.empty(), "unregistering called a listener"); r.listeners.clear(); r.settle("unregister", false); }
        state_of(r, cap);
    }
    Bytes o; for (auto& p : r.pending) put(o, p.size()); put(o, r.listeners.size());
    ht_timeline_destroy(t);
    r.settle("destroy", true);
    seq::outcome(o); seq::state(o);
}
static void s_plain() { sequences(false); }
static void s_safe() { sequences(true); }
// every fill level: n events of one shape, then one event of another shape, around every capacity
static void s_fill()
{
    once(); calls.clear(); keep.clear();
    Ref r; size_t cap = seq::choose(250); r.ser = true;
    HT_Timeline* t = ht_timeline_create(cap, HT_FALSE, HT_TRUE, nullptr, nullptr);
    reg(t, r);
    int a = seq::choose(6), n = seq::choose(8), b = seq::choose(6), m = 1 + seq::choose(2);
    seq::note("capacity %zu: %d x %s, %d x %s, destroy", cap, n, shape_name[a], m, shape_name[b]);
    for (int i = 0; i < n; i++) { push(t, r, a); r.settle("push", false); }
    for (int i = 0; i < m; i++) { push(t, r, b); r.settle("push", false); }
    state_of(r, cap);
    if (seq::choose(2)) { ht_timeline_flush(t); r.settle("flush", true); }
    ht_timeline_destroy(t);
    r.settle("destroy", true);
    seq::outcome(&cap, sizeof cap);
}
// listener sets that grow, are cleared, and grow again
static void s_listeners()
{
    once(); calls.clear(); keep.clear();
    Ref r; r.ser = seq::choose(2) == 0; size_t cap = seq::choose(2) ? 64 : 0;
    HT_Timeline* t = ht_timeline_create(cap, HT_FALSE, r.ser, nullptr, nullptr);
    int rounds = 1 + seq::choose(3);
    seq::note("listener rounds:");
    for (int k = 0; k < rounds; k++)
    {
        static const int counts[] = {0, 1, 2, 5, 6, 15, 16, 17, 31, 32, 33, 65};
        int n = counts[seq::choose(12)];
        seq::note(" +%d", n);
        for (int i = 0; i < n; i++) { reg(t, r); if (i == n / 2) { push(t, r, i % 3); r.settle("push", false); } }
        push(t, r, 1); r.settle("push", false);
        state_of(r, cap);
        if (k + 1 < rounds)
        {
            ht_timeline_flush(t); r.settle("flush", true);
            if (seq::choose(2)) { seq::note(" clear"); ht_timeline_unregister_all_listeners(t); r.listeners.clear(); r.settle("unregister", false); }
        }
    }
    seq::outcome(&rounds, sizeof rounds);
    ht_timeline_destroy(t);
    r.settle("destroy", true);
}
static const seq::Scenario sc[] = {{"sequences", s_plain, 0, false}, {"sequences_locked", s_safe, 0, false}, {"fill_levels", s_fill, 0, false}, {"listener_sets", s_listeners, 0, false}};
int main(int argc, char** argv) { return seq::main(argc, argv, sc, 4); }
