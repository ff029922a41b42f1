// P13/P14: tracepoints of several threads on their global timelines (one shared listener), labels through the string cache, C and C++ sites.
#include "conc.h"
#include "ref.hpp"
#include <hawktracer/thread.h>
#include <map>
#include <thread>

extern "C" { void p13_tick(void) { mc_point(); } int p13_choose(int) { return 0; } void p13_c_mapped(HT_Timeline*, int); void p13_c_dyn(HT_Timeline*, const char*); void p13_c_function(HT_Timeline*); }
static void cb(TEventPtr e, size_t n, HT_Boolean, void*) { mc_log(100, e, n); }
enum { WANT = 200, TID = 201 };
static void want(const char* label) { mc_log(WANT, label, strlen(label)); }      // at the end of a tracepoint of the calling thread
static void tid() { HT_ThreadId t = ht_thread_get_current_thread_id(); mc_log(TID, &t, sizeof t); }
struct Rep { std::string label; uint32_t thread; };
static void verify()
{
    McQuiet quiet;
    uint32_t km = ht_HT_StringMappingEvent_get_event_klass_instance()->klass_id, ki = ht_HT_CallstackIntEvent_get_event_klass_instance()->klass_id, ks = ht_HT_CallstackStringEvent_get_event_klass_instance()->klass_id;
    std::map<int, std::map<uint64_t, std::string>> maps; std::map<int, std::vector<Rep>> got; std::map<int, std::vector<std::string>> exp; std::map<int, uint32_t> ids; Bytes o;
    for (size_t i = 0; i < mc_log_count(); i++)
    {
        McLogEntry l = mc_log_get(i); Bytes b((const char*)l.data, l.size);
        if (l.kind == WANT) exp[l.tid].push_back(b);
        if (l.kind == TID) ids[l.tid] = get32(b, 0);
        if (l.kind != 100) continue;
        for (size_t p = 0; p < b.size();)
        {
            uint32_t k = get32(b, p); std::string label;
            if (k == km) { size_t q = b.find('\0', p + 28); uint64_t id = get64(b, p + 20); if (q == Bytes::npos) mc_fail("broken mapping event"); label = b.substr(p + 28, q - p - 28); auto& m = maps[l.tid]; if (m.count(id)) mc_fail("identifier of '%s' was announced twice", label.c_str()); m[id] = label; p = q + 1; continue; }
            if (k != ki && k != ks) mc_fail("an event nobody traced");
            uint32_t th = get32(b, p + 28);
            if (k == ki) { uint64_t id = get64(b, p + 32); auto& m = maps[l.tid]; if (!m.count(id)) mc_fail("a tracepoint was reported whose label %llx has no mapping yet in its timeline", (unsigned long long)id); label = m[id]; p += 40; }
            else { size_t q = b.find('\0', p + 32); if (q == Bytes::npos) mc_fail("broken event"); label = b.substr(p + 32, q - p - 32); p = q + 1; }
            got[l.tid].push_back({label, th}); put(o, l.tid);
        }
    }
    for (auto& e : exp)
    {
        auto& g = got[e.first]; if (g.size() != e.second.size()) mc_fail("thread %d: %zu tracepoints reported, %zu ended", e.first, g.size(), e.second.size());
        for (size_t i = 0; i < g.size(); i++) { if (g[i].label != e.second[i]) mc_fail("thread %d: tracepoint %zu is '%s', reported as '%s'", e.first, i, e.second[i].c_str(), g[i].label.c_str()); if (g[i].thread != ids[e.first]) mc_fail("thread %d: tracepoint reported with thread id %u instead of %u", e.first, g[i].thread, ids[e.first]); }
    }
    for (auto& g : got) if (!exp.count(g.first)) mc_fail("tracepoints of a thread that did not trace");
    mc_outcome(o.data(), o.size());
}
static void site() { { HT_G_TRACE_OPT_STATIC("static label"); mc_point(); } want("static label"); }
static void func() { HT_G_TRACE_FUNCTION(); mc_point(); }
static void dyn(const char* s) { { HT_G_TRACE_OPT_DYNAMIC(s); mc_point(); } want(s); }
static void plain() { { HT_G_TRACE("outer"); site(); } want("outer"); }
static void c_site() { p13_c_mapped(ht_global_timeline_get(), 1); want("c mapped label"); want("c mapped label"); }
static void up() { ht_init(0, nullptr); ht_timeline_register_listener(ht_global_timeline_get(), cb, nullptr); }
static void run(void (*a)(), void (*b)(), void (*c)() = nullptr)
{
    up();
    auto th = [](void (*f)()) { tid(); f(); };
    std::thread x(th, b), y; if (c) y = std::thread(th, c);
    tid(); a(); x.join(); if (c) y.join();
    ht_timeline_flush(ht_global_timeline_get());
    verify(); ht_deinit();
}
static void f_func() { func(); want("func"); func(); want("func"); }
static void f_site() { site(); site(); } static void f_dyn() { dyn("ab"); dyn("bA"); } static void f_dyn2() { dyn("bA"); dyn("ab"); }
static void f_c() { c_site(); c_site(); } static void f_mix() { plain(); c_site(); }
static void s_site() { run(f_site, f_site); } static void s_func() { run(f_func, f_site); } static void s_dyn() { run(f_dyn, f_dyn2); } static void s_c() { run(f_c, f_c); } static void s_mix() { run(f_mix, f_mix); } static void s_plain() { run(plain, f_dyn); } static void s_three() { run(site, c_site, plain); }
static void s_c3() { run(c_site, c_site, c_site); }
static const McScenario sc[] = {
    {"static_site", s_site, 4, 99, 0, 0, 0, 0}, {"function_site", s_func, 3, 99, 0, 0, 0, 0}, {"dynamic", s_dyn, 3, 99, 0, 0, 0, 0}, {"c_site", s_c, 3, 99, 0, 0, 0, 0}, {"nested", s_plain, 3, 99, 0, 0, 0, 0}, {"mixed", s_mix, 3, 6, 0, 0, 0, 0}, {"three", s_three, 2, 4, 0, 0, 0, 0}, {"c_three", s_c3, 1, 3, 0, 0, 0, 0}};
int main(int argc, char** argv) { return mc_conc_main(argc, argv, sc, sizeof sc / sizeof *sc); }
