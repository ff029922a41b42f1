// P03: schedules of threads that create, use and destroy timelines of named listener sets.
#include "conc.h"
#include "ref.hpp"
#include <thread>
#include <mutex>
#include <condition_variable>

static int g_destroyed[8]; static bool g_dead[8];
struct LD { int id; };
static LD lds[8];
static void cb(TEventPtr e, size_t n, HT_Boolean, void* ud) { LD* l = (LD*)ud; if (g_dead[l->id]) mc_fail("listener %d called after it was destroyed", l->id); mc_log(100 + l->id, e, n); }
static void gone(void* ud) { LD* l = (LD*)ud; mc_log(200 + l->id, "", 0); g_dead[l->id] = true; if (++g_destroyed[l->id] > 1) mc_fail("listener %d destroyed twice", l->id); }
static void reg(HT_Timeline* t, int id) { lds[id].id = id; if (ht_timeline_register_listener_full(t, cb, &lds[id], gone) != HT_ERR_OK) mc_fail("registration failed"); }
static HT_Timeline* mk(const char* n, size_t cap = 0, bool safe = false) { HT_Timeline* t = ht_timeline_create(cap, safe, HT_TRUE, n, nullptr); if (!t) mc_fail("timeline not created"); return t; }
static void push(HT_Timeline* t, uint32_t who, uint32_t seq) { push_msg(t, Msg{10 + who, 20 + seq, who, seq, "m"}); }
// events (who, seq) that listener id received
static void expect(int id, std::vector<std::pair<uint32_t, uint32_t>> want, const char* what)
{
    std::vector<std::pair<uint32_t, uint32_t>> got;
    uint32_t k = ht_EvMsg_get_event_klass_instance()->klass_id;
    for (size_t i = 0; i < mc_log_count(); i++)
    {
        McLogEntry e = mc_log_get(i); if (e.kind != 100 + id) continue;
        Bytes b((const char*)e.data, e.size); size_t p = 0;
        while (p < b.size())
        {
            uint32_t who = get32(b, p + 20), seq = get32(b, p + 24);
            Bytes w = ref_msg(k, Msg{10 + who, 20 + seq, who, seq, "m"});
            if (b.compare(p, w.size(), w) != 0) mc_fail("%s: listener %d got altered bytes", what, id);
            got.push_back({who, seq}); p += w.size();
        }
    }
    mc_outcome(got.data(), got.size() * sizeof got[0]);
    for (auto& w : want)
    {
        size_t n = 0; for (auto& g : got) n += g == w;
        if (n != 1) mc_fail("%s: listener %d got event %u of timeline %u %zu times", what, id, w.second, w.first, n);
    }
    if (got.size() != want.size()) mc_fail("%s: listener %d got %zu events, expected %zu", what, id, got.size(), want.size());
    std::vector<int64_t> last(16, -1);
    for (auto& g : got) { if ((int64_t)g.second <= last[g.first]) mc_fail("%s: reordered", what); last[g.first] = g.second; }
}
static void up() { ht_init(0, nullptr); ht_EvMsg_register_event_klass(); }
static void down_all_destroyed(int n) { ht_deinit(); for (int i = 0; i < n; i++) if (g_destroyed[i] != 1) mc_fail("listener %d destroyed %d times in the end", i, g_destroyed[i]); }

// two threads open the same new set at once and register a listener each; later everybody's events reach both
static void s_open_same()
{
    up(); HT_Timeline* t[2];
    std::thread a([&] { t[1] = mk("a"); reg(t[1], 1); });
    t[0] = mk("a"); reg(t[0], 0);
    a.join();
    push(t[0], 0, 0); push(t[1], 1, 0);
    HT_Timeline* u = mk("a"); push(u, 2, 0);
    expect(0, {{0, 0}, {1, 0}, {2, 0}}, "same set"); expect(1, {{0, 0}, {1, 0}, {2, 0}}, "same set");
    ht_timeline_destroy(t[0]); ht_timeline_destroy(u);
    if (g_destroyed[0] || g_destroyed[1]) mc_fail("listener destroyed although a timeline still uses the set");
    push(t[1], 1, 1);
    ht_timeline_destroy(t[1]);
    expect(0, {{0, 0}, {1, 0}, {2, 0}, {1, 1}}, "after destroy");
    down_all_destroyed(2);
}
static void s_open_three()
{
    up(); HT_Timeline* t[3];
    std::thread a([&] { t[1] = mk("a"); }), b([&] { t[2] = mk("a"); });
    t[0] = mk("a");
    a.join(); b.join();
    reg(t[1], 0);
    for (int i = 0; i < 3; i++) push(t[i], i, 0);
    expect(0, {{0, 0}, {1, 0}, {2, 0}}, "same set");
    for (int i = 0; i < 3; i++) ht_timeline_destroy(t[i]);
    down_all_destroyed(1);
}
// two different new sets at once
static void s_open_different()
{
    up(); HT_Timeline* t[2];
    std::thread a([&] { t[1] = mk("b"); reg(t[1], 1); push(t[1], 1, 0); });
    t[0] = mk("a"); reg(t[0], 0); push(t[0], 0, 0);
    a.join();
    HT_Timeline* u = mk("b"); push(u, 2, 0);
    expect(0, {{0, 0}}, "set a"); expect(1, {{1, 0}, {2, 0}}, "set b");
    ht_timeline_destroy(t[0]); ht_timeline_destroy(t[1]); ht_timeline_destroy(u);
    down_all_destroyed(2);
}
// short-lived users of an existing set
static void s_users()
{
    up(); HT_Timeline* t = mk("a"); reg(t, 0);
    auto user = [&](uint32_t who) { HT_Timeline* u = mk("a", who == 1 ? 0 : 100); push(u, who, 0); ht_timeline_destroy(u); };
    std::thread a(user, 1), b(user, 2);
    push(t, 0, 0);
    a.join(); b.join();
    push(t, 0, 1);
    expect(0, {{0, 0}, {1, 0}, {2, 0}, {0, 1}}, "users");
    if (g_destroyed[0]) mc_fail("listener destroyed although a timeline still uses the set");
    ht_timeline_destroy(t);
    if (g_destroyed[0]) mc_fail("listener destroyed although the library still owns the set");
    down_all_destroyed(1);
}
// one thread lets go of its timeline while another opens one
static void s_close_open()
{
    up(); HT_Timeline* t = mk("a"); reg(t, 0); HT_Timeline* u = nullptr;
    std::thread a([&] { u = mk("a"); push(u, 1, 0); });
    push(t, 0, 0); ht_timeline_destroy(t);
    a.join();
    push(u, 1, 1);
    if (g_destroyed[0]) mc_fail("listener destroyed although a timeline still uses the set");
    HT_Timeline* v = mk("a"); push(v, 2, 0);
    expect(0, {{0, 0}, {1, 0}, {1, 1}, {2, 0}}, "close/open");
    ht_timeline_destroy(u); ht_timeline_destroy(v);
    down_all_destroyed(1);
}
// shutdown overlaps the end of the last timelines
static void s_shutdown()
{
    up(); HT_Timeline* t = mk("a", 100); HT_Timeline* u = mk("a", 0); reg(t, 0);
    std::thread a([&] { push(t, 1, 0); ht_timeline_destroy(t); }), b([&] { push(u, 2, 0); ht_timeline_destroy(u); });
    ht_deinit();
    a.join(); b.join();
    expect(0, {{1, 0}, {2, 0}}, "shutdown");
    if (g_destroyed[0] != 1) mc_fail("listener destroyed %d times in the end", g_destroyed[0]);
}
// private sets are independent of everything
static void s_private()
{
    up(); HT_Timeline* t = mk(nullptr); reg(t, 0);
    std::thread a([&] { HT_Timeline* u = mk(nullptr); reg(u, 1); push(u, 1, 0); ht_timeline_destroy(u); if (g_destroyed[1] != 1) mc_fail("private listener not destroyed with its timeline"); });
    push(t, 0, 0);
    a.join();
    expect(0, {{0, 0}}, "private"); expect(1, {{1, 0}}, "private");
    ht_timeline_destroy(t);
    if (g_destroyed[0] != 1) mc_fail("private listener not destroyed with its timeline");
    ht_deinit();
}
// concurrent registrations on one set
static void s_register()
{
    up(); HT_Timeline* t = mk("a"); HT_Timeline* u = mk("a");
    std::thread a([&] { reg(u, 1); reg(u, 2); });
    reg(t, 0); reg(t, 3);
    a.join();
    push(t, 0, 0); push(u, 1, 0);
    for (int i = 0; i < 4; i++) expect(i, {{0, 0}, {1, 0}}, "register");
    ht_timeline_destroy(t); ht_timeline_destroy(u);
    down_all_destroyed(4);
}
// the per-thread global timelines belong to one set; a thread's exit delivers what it traced
static void s_global()
{
    up();
    ht_timeline_register_listener(ht_global_timeline_get(), cb, &lds[0]);
    auto user = [&](uint32_t who) { push(ht_global_timeline_get(), who, 0); push(ht_global_timeline_get(), who, 1); };
    std::thread a(user, 1), b(user, 2);
    a.join(); b.join();
    push(ht_global_timeline_get(), 0, 0); ht_timeline_flush(ht_global_timeline_get());
    expect(0, {{1, 0}, {1, 1}, {2, 0}, {2, 1}, {0, 0}}, "global");
    ht_deinit();
}
// the first users of the global timeline arrive at once; the listener comes later
static void s_global_first()
{
    up(); HT_Timeline* g[2];
    std::mutex m; std::condition_variable cv; int go = 0;
    auto until = [&](int v) { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return go >= v; }); };
    auto set = [&](int v) { std::lock_guard<std::mutex> l(m); go = v; cv.notify_all(); };
    std::thread a([&] { g[1] = ht_global_timeline_get(); set(1); until(2); push(g[1], 1, 0); });
    g[0] = ht_global_timeline_get();
    until(1);
    if (g[0] == g[1]) mc_fail("two threads share one global timeline");
    ht_timeline_register_listener(g[0], cb, &lds[0]);
    set(2);
    a.join();
    push(g[0], 0, 0); ht_timeline_flush(g[0]);
    expect(0, {{1, 0}, {0, 0}}, "global");
    ht_deinit();
}
static const McScenario sc[] = {
    {"open_same", s_open_same, 99, 99, 0, 0, 0, 0}, {"open_three", s_open_three, 3, 99, 0, 0, 0, 0}, {"open_different", s_open_different, 99, 99, 0, 0, 0, 0},
    {"users", s_users, 99, 99, 0, 0, 0, 0}, {"close_open", s_close_open, 99, 99, 0, 0, 0, 0}, {"shutdown", s_shutdown, 99, 99, 0, 0, 0, 0},
    {"private", s_private, 99, 99, 0, 0, 0, 0}, {"register", s_register, 99, 99, 0, 0, 0, 0}, {"global", s_global, 3, 99, 0, 0, 0, 0}, {"global_first", s_global_first, 3, 99, 0, 0, 0, 0},
};
int main(int argc, char** argv) { return mc_conc_main(argc, argv, sc, sizeof sc / sizeof *sc); }
