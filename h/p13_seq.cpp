// P13: nested tracepoints against a reference stack; time is an explored input.
#include "seq.hpp"
#include "ref.hpp"
#include "fakeclock.hpp"
#include <hawktracer/tracepoint.h>
#include <hawktracer/thread.h>
#include <map>
#include <memory>
#include <thread>
#include <deque>

struct Got { uint32_t klass; uint64_t ts, dur; uint32_t thread; std::string kind, label; Bytes rest; };
static std::deque<Got> got; static bool g_ser; static std::string g_err; static std::map<uint64_t, std::string> g_map;
template<class T> static T take(const Bytes& b, size_t& p) { T v{}; if (p + sizeof v > b.size()) { g_err = "short event"; p = b.size(); return v; } memcpy(&v, b.data() + p, sizeof v); p += sizeof v; return v; }
static std::string take_str(const Bytes& b, size_t& p) { size_t q = b.find('\0', p); if (q == Bytes::npos) { g_err = "unterminated string"; p = b.size(); return ""; } std::string s = b.substr(p, q - p); p = q + 1; return s; }
static void cb(TEventPtr ev, size_t n, HT_Boolean ser, void*)
{
    Bytes b((const char*)ev, n); size_t p = 0;
    if ((ser != 0) != g_ser) g_err = "wrong serialisation flag";
    HT_EventKlass* ki = ht_HT_CallstackIntEvent_get_event_klass_instance(); HT_EventKlass* ks = ht_HT_CallstackStringEvent_get_event_klass_instance();
    HT_EventKlass* kt = ht_EvTrace_get_event_klass_instance(); HT_EventKlass* km = ht_HT_StringMappingEvent_get_event_klass_instance();
    while (p < b.size())
    {
        Got g{};
        if (ser)
        {
            g.klass = take<uint32_t>(b, p); g.ts = take<uint64_t>(b, p); take<uint64_t>(b, p);
            if (g.klass == km->klass_id) { uint64_t id = take<uint64_t>(b, p); g_map[id] = take_str(b, p); continue; }
            g.dur = take<uint64_t>(b, p); g.thread = take<uint32_t>(b, p);
            if (g.klass == ki->klass_id) { g.kind = "int"; g.label = std::to_string(take<uint64_t>(b, p)); }
            else if (g.klass == ks->klass_id) { g.kind = "string"; g.label = take_str(b, p); }
            else if (g.klass == kt->klass_id) { g.kind = "user"; uint16_t l = take<uint16_t>(b, p); g.label = std::to_string(l) + "/" + take_str(b, p); }
            else { g_err = "event of unexpected class"; return; }
        }
        else
        {
            HT_CallstackBaseEvent* e = (HT_CallstackBaseEvent*)(b.data() + p); HT_EventKlass* k = e->base.klass; if (k != km) p += k->type_info->size;
            g.klass = k->klass_id; g.ts = e->base.timestamp;
            if (k == km) { HT_StringMappingEvent* m = (HT_StringMappingEvent*)e; g_map[m->identifier] = m->label; p += k->type_info->size; continue; }
            g.dur = e->duration; g.thread = e->thread_id;
            if (k == ki) { g.kind = "int"; g.label = std::to_string(((HT_CallstackIntEvent*)e)->label); }
            else if (k == ks) { g.kind = "string"; g.label = ((HT_CallstackStringEvent*)e)->label; }
            else if (k == kt) { g.kind = "user"; g.label = std::to_string(((EvTrace*)e)->label) + "/" + ((EvTrace*)e)->where; }
            else { g_err = "event of unexpected class"; return; }
        }
        got.push_back(g);
    }
}
struct Open { std::string kind, label; uint64_t ts; };
struct Want { std::string kind, label; uint64_t ts, dur; uint32_t thread; };
static std::vector<std::unique_ptr<std::string>> keep;
struct Ref
{
    HT_Timeline* t; std::vector<Open> open; std::deque<Want> want; uint64_t n = 0;
    void start(int kind)
    {
        n++; uint64_t lab = kind == 0 ? (n % 3 == 0 ? 0xfffffffffffffff0ull + n % 8 : n) : n;
        if (kind == 0) { ht_feature_callstack_start_int(t, lab); open.push_back({"int", std::to_string(lab), fake_ns}); }
        else if (kind == 1) { keep.emplace_back(new std::string(n % 40, 'a' + n % 26)); ht_feature_callstack_start_string(t, keep.back()->c_str()); open.push_back({"string", *keep.back(), fake_ns}); }
        else { keep.emplace_back(new std::string("w" + std::to_string(n))); EvTrace e; memset(&e, 0xee, sizeof e); e.base.base.klass = ht_EvTrace_get_event_klass_instance(); e.label = (uint16_t)(n * 257); e.where = keep.back()->c_str(); ht_feature_callstack_start(t, (HT_CallstackBaseEvent*)&e); open.push_back({"user", std::to_string((uint16_t)(n * 257)) + "/" + *keep.back(), fake_ns}); memset(&e, 0, sizeof e); }
    }
    void stopped(uint32_t tid) { Open o = open.back(); open.pop_back(); want.push_back({o.kind, o.label, o.ts, fake_ns - o.ts, tid}); }
    void stop() { ht_feature_callstack_stop(t); stopped(ht_thread_get_current_thread_id()); }
};
static void settle(std::deque<Want>& want, bool all)
{
    SEQ_CHECK(g_err.empty(), "%s", g_err.c_str());
    while (!got.empty())
    {
        SEQ_CHECK(!want.empty(), "a tracepoint was reported that was not stopped (label %s)", got[0].label.c_str());
        const Got& g = got[0]; const Want& w = want[0];
        SEQ_CHECK(g.kind == w.kind && g.label == w.label, "stop reported %s label '%s', the innermost open tracepoint is %s '%s'", g.kind.c_str(), g.label.c_str(), w.kind.c_str(), w.label.c_str());
        SEQ_CHECK(g.ts == w.ts, "start time %llu reported for '%s', was %llu", (unsigned long long)g.ts, w.label.c_str(), (unsigned long long)w.ts);
        SEQ_CHECK(g.dur == w.dur, "duration %llu reported for '%s', was %llu", (unsigned long long)g.dur, w.label.c_str(), (unsigned long long)w.dur);
        SEQ_CHECK(g.thread == w.thread, "thread %u reported for '%s', current thread is %u", g.thread, w.label.c_str(), w.thread);
        Bytes o; put(o, w.dur); o += w.label; seq::outcome(o);
        got.pop_front(); want.pop_front();
    }
    if (all) SEQ_CHECK(want.empty(), "%zu stopped tracepoints were not reported", want.size());
}
static void once() { static bool d = false; if (!d) { d = true; ht_init(0, nullptr); ht_EvTrace_register_event_klass(); } got.clear(); keep.clear(); g_err.clear(); g_map.clear(); }
static HT_Timeline* mk(size_t cap, bool ser, bool strings = false)
{
    g_ser = ser; HT_Timeline* t = ht_timeline_create(cap, HT_FALSE, ser, nullptr, nullptr); SEQ_CHECK(t, "no timeline");
    SEQ_CHECK(ht_feature_callstack_enable(t) == HT_ERR_OK, "callstack not enabled"); if (strings) SEQ_CHECK(ht_feature_cached_string_enable(t, HT_FALSE) == HT_ERR_OK, "strings not enabled");
    ht_timeline_register_listener(t, cb, nullptr); return t;
}
static const size_t caps[] = {0, 100, 4096};
static void s_nested()
{
    once(); size_t cap = caps[seq::choose(3)]; bool ser = seq::choose(2) == 0; Ref r; r.t = mk(cap, ser); FakeClock fc(1000);
    seq::note("capacity %zu %s:", cap, ser ? "serialised" : "raw");
    int depth = seq::thorough() ? 10 : 8;
    for (int i = 0; i < depth; i++)
    {
        int o = seq::choose(r.open.empty() ? 4 : 5); if (o == 0) break;
        fake_ns += 3 + i * 10;
        if (o == 4) { r.stop(); seq::note(" stop"); } else { r.start(o - 1); seq::note(" start-%s", o == 1 ? "int" : o == 2 ? "string" : "user"); }
        settle(r.want, cap == 0); seq::step(); Bytes s; for (auto& x : r.open) s += x.kind[0]; put(s, cap); put(s, r.want.size()); seq::state(s);
    }
    while (!r.open.empty()) { fake_ns += 7; r.stop(); }
    ht_timeline_flush(r.t); settle(r.want, true); ht_timeline_destroy(r.t); settle(r.want, true);
}
// every way time may pass between the operations, including not at all and far
static void s_time()
{
    once(); Ref r; r.t = mk(seq::choose(2) * 200, true); static const uint64_t adv[] = {0, 1, 999999999, 5000000000ull, 1ull << 40}; FakeClock fc(seq::choose(2) ? 5 : (1ull << 62));
    for (int i = 0; i < (seq::thorough() ? 6 : 5); i++) { int o = seq::choose(r.open.empty() ? 2 : 3); if (!o) break; uint64_t a = adv[seq::choose(5)]; fake_ns += a; seq::note(" +%llu %s", (unsigned long long)a, o == 1 ? "start" : "stop"); if (o == 2) r.stop(); else r.start(i % 3); seq::step(); }
    while (!r.open.empty()) r.stop();
    ht_timeline_flush(r.t); settle(r.want, true); ht_timeline_destroy(r.t);
}
// every depth: up to n, down to k, up to n again, down to 0; grows and shrinks the stack in all combinations
static void s_depths()
{
    once(); int top = seq::thorough() ? 400 : 200; int n = seq::choose(top) + 1, k = seq::choose(seq::thorough() ? 30 : 12) * n / (seq::thorough() ? 30 : 12), kind = seq::choose(4);
    Ref r; r.t = mk(kind == 3 ? 0 : 700, kind != 2); FakeClock fc(50); seq::note("depth %d down to %d and up, kinds %d", n, k, kind);
    auto up = [&] { while ((int)r.open.size() < n) { fake_ns += 2; r.start(kind == 3 ? r.n % 3 : kind); } };
    up(); while ((int)r.open.size() > k) { fake_ns += 1; r.stop(); } up(); while (!r.open.empty()) { fake_ns += 3; r.stop(); }
    fake_ns += 3; r.start(0); r.stop();
    ht_timeline_flush(r.t); settle(r.want, true); ht_timeline_destroy(r.t); seq::step();
}
static void s_two_timelines()
{
    once(); Ref r[2]; std::deque<Want> want; bool ser = seq::choose(2) == 0; for (auto& x : r) x.t = mk(0, ser); r[1].n = 100; FakeClock fc(9);
    for (int i = 0; i < (seq::thorough() ? 9 : 7); i++)
    {
        int w = seq::choose(2), o = seq::choose(r[w].open.empty() ? 2 : 3); if (o == 0) break; fake_ns += i + 1; seq::note(" %d:%s", w, o == 1 ? "start" : "stop");
        if (o == 1) r[w].start((i + w) % 3); else r[w].stop();
        settle(r[w].want, true); seq::step();
    }
    for (auto& x : r) { while (!x.open.empty()) { fake_ns += 7; x.stop(); settle(x.want, true); } ht_timeline_destroy(x.t); }
}
// operations of one timeline come from different threads, one after the other
static void s_threads()
{
    once(); Ref r; r.t = mk(0, true); FakeClock fc(77); uint32_t main_id = ht_thread_get_current_thread_id();
    for (int i = 0; i < 5; i++)
    {
        int o = seq::choose(r.open.empty() ? 2 : 3); if (!o) break; bool other = seq::choose(2); fake_ns += 4; seq::note(" %s%s", o == 1 ? "start" : "stop", other ? "(other thread)" : "");
        uint32_t tid = 0; auto f = [&] { tid = ht_thread_get_current_thread_id(); if (o == 1) r.start(i % 3); else { ht_feature_callstack_stop(r.t); } };
        if (other) { std::thread th(f); th.join(); SEQ_CHECK(tid != main_id, "two threads share an identifier"); } else f();
        if (o == 2) r.stopped(tid);
        settle(r.want, true); seq::step();
    }
    while (!r.open.empty()) r.stop(); settle(r.want, true); ht_timeline_destroy(r.t);
}
// ---- scoped tracepoints left on every path. The reference is filled by explicit model scopes beside each macro.
static Ref* R; extern "C" void p13_tick(void) { fake_ns += 11; } static std::vector<int> g_answers; extern "C" int p13_choose(int n) { g_answers.push_back(seq::choose(n)); return g_answers.back(); }
struct M { M(const char* k, std::string l) { R->open.push_back({k, l, fake_ns}); } ~M() { R->stopped(ht_thread_get_current_thread_id()); } };
static int f_inner(HT_Timeline* t, int how)
{
    M m("string", "inner"); HT_TRACE(t, "inner"); p13_tick();
    if (how == 0) return 1;
    { M m2("int", "41"); HT_TP_SCOPED_INT(t, 41); p13_tick(); if (how == 1) throw how; if (how == 2) return 2; if (how == 3) goto out; }
    { M a("int", "42"); HT_TP_SCOPED_INT(t, 42);
      M b("string", "second"); HT_TP_SCOPED_STRING(t, "second"); p13_tick(); }
    try { M m3("int", "43"); HT_TP_SCOPED_INT(t, 43); p13_tick(); if (how == 4) throw 4; if (how == 5) return f_inner(t, 1); } catch (int) { p13_tick(); if (how == 4) throw; }
out:
    p13_tick(); return 3;
}
static void func_traced(HT_Timeline* t) { M m("string", "func_traced"); HT_TRACE_FUNCTION(t); p13_tick(); }
static void s_scopes()
{
    once(); Ref r; R = &r; size_t cap = caps[seq::choose(3)]; r.t = mk(cap, seq::choose(2) == 0); FakeClock fc(500); HT_Timeline* t = r.t;
    {
        M m("int", "1"); HT_TP_SCOPED_INT(t, 1); p13_tick();
        int n = seq::choose(4);
        for (int i = 0; i < n; i++)
        {
            M m2("string", "loop"); HT_TP_SCOPED_STRING(t, "loop"); p13_tick(); int how = seq::choose(9);
            if (how == 7) break; if (how == 8) continue;
            try { f_inner(t, how); } catch (int) { M c("int", "99"); HT_TP_SCOPED_INT(t, 99); p13_tick(); }
            if (how == 6) func_traced(t);
        }
    }
    seq::step(); ht_timeline_flush(t); settle(r.want, true); ht_timeline_destroy(t);
}
extern "C" int p13_c_paths(HT_Timeline*); extern "C" void p13_c_function(HT_Timeline*); extern "C" void p13_c_mapped(HT_Timeline*, int); extern "C" void p13_c_dyn(HT_Timeline*, const char*);
static int model_c_inner(int how)
{
    M m("int", "21"); p13_tick(); if (how == 0) return 1;
    { M b("string", "c block"); p13_tick(); if (how == 1) return 2; if (how == 2) goto out; }
    p13_tick();
out: p13_tick(); return 3;
}
static int model_c_paths(int how, int at)
{
    int n = 0; M o("string", "c outer");
    for (int i = 0; i < 3; i++) { M m("int", std::to_string(31 + i)); p13_tick(); if (i == at && how == 0) break; if (i == at && how == 1) continue; n += model_c_inner((how + i) % 4); if (i == at && how == 2) return n; p13_tick(); }
    return n;
}
static void s_c_scopes()
{
    once(); Ref r; R = &r; r.t = mk(caps[seq::choose(3)], seq::choose(2) == 0); FakeClock fc(500);
    // the implementation runs first; its decisions are repeated by the model, then the reports are compared
    g_answers.clear(); p13_c_paths(r.t); uint64_t end = fake_ns;
    fake_ns = 500; model_c_paths(g_answers[0], g_answers[1]);
    SEQ_CHECK(fake_ns == end, "harness: model and code took different paths");
    ht_timeline_flush(r.t); settle(r.want, true);
    fake_ns = 9000; { M m("string", "p13_c_function"); fake_ns += 11; } fake_ns = 9000; p13_c_function(r.t);
    ht_timeline_flush(r.t); settle(r.want, true);
    ht_timeline_destroy(r.t); seq::step();
}
// tracepoints whose label goes through the string cache: the reported number must resolve to the label
static void strace(HT_Timeline* t, int k) { HT_TRACE_OPT_STATIC(t, "static label"); p13_tick(); if (k > 0) strace(t, k - 1); }
static void ftrace(HT_Timeline* t) { HT_TRACE_FUNCTION_OPT(t); p13_tick(); }
static void dtrace(HT_Timeline* t, const std::string& s) { std::string copy = s; { HT_TRACE_OPT_DYNAMIC(t, copy.c_str()); p13_tick(); } copy.assign(copy.size(), '#'); }
static void s_labelled()
{
    once(); Ref r; R = &r; r.t = mk(caps[seq::choose(3)], seq::choose(2) == 0, true); FakeClock fc(500); HT_Timeline* t = r.t; std::vector<std::pair<std::string, uint64_t>> want;
    for (int i = 0; i < (seq::thorough() ? 5 : 4); i++)
    {
        int o = seq::choose(8); if (!o) break;
        if (o == 1) { strace(t, 0); want.push_back({"static label", 11}); } else if (o == 2) { strace(t, 2); for (int k = 1; k <= 3; k++) want.push_back({"static label", 11u * k}); }
        else if (o == 3) { ftrace(t); want.push_back({"ftrace", 11}); } else if (o == 4) { dtrace(t, "dyn ab"); want.push_back({"dyn ab", 11}); } else if (o == 5) { dtrace(t, "dyn bA"); want.push_back({"dyn bA", 11}); }
        else if (o == 6) { p13_c_mapped(t, 1); want.push_back({"c mapped label", 11}); want.push_back({"c mapped label", 22}); } else { p13_c_dyn(t, "dyn ab"); want.push_back({"dyn ab", 11}); }
        seq::step();
    }
    ht_timeline_flush(t); SEQ_CHECK(g_err.empty(), "%s", g_err.c_str()); SEQ_CHECK(got.size() == want.size(), "%zu tracepoints reported, %zu ended", got.size(), want.size());
    for (size_t i = 0; i < want.size(); i++) { uint64_t id = strtoull(got[i].label.c_str(), 0, 10); SEQ_CHECK(g_map.count(id), "label of tracepoint %zu has no mapping", i); SEQ_CHECK(g_map[id] == want[i].first, "tracepoint %zu resolves to '%s' instead of '%s'", i, g_map[id].c_str(), want[i].first.c_str()); SEQ_CHECK(got[i].dur == want[i].second, "tracepoint %zu has duration %llu", i, (unsigned long long)got[i].dur); seq::outcome(want[i].first); }
    ht_timeline_destroy(t);
}
static const seq::Scenario sc[] = {{"nested", s_nested, 0, false}, {"time", s_time, 0, false}, {"depths", s_depths, 0, false}, {"two_timelines", s_two_timelines, 0, false}, {"threads", s_threads, 0, false}, {"scopes", s_scopes, 0, false}, {"c_scopes", s_c_scopes, 0, false}, {"labelled", s_labelled, 0, true}};
int main(int argc, char** argv) { return seq::main(argc, argv, sc, 8); }
