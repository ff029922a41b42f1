// P10: what TCP clients receive, under every schedule of pushing threads, connecting clients and the accepting thread.
#include "tcplis.hpp"

// one reference client that connects first (if ref), `late` clients that connect at any moment, each maybe leaving again
static void run(size_t bufsize, std::vector<const char*> plans, bool ref, int late, int leaver = -1, bool reset = false, bool faults = false)
{
    ht_init(0, nullptr); { Net n(ref + late); for (size_t w = 0; w < plans.size(); w++) n.plan(w, plans[w]);
    HT_ErrorCode err = HT_ERR_UNKNOWN; HT_TCPListener* l = ht_tcp_listener_create(PORT, bufsize, &err); if (!l) mc_fail("listener not created (%d)", err);
    if (ref) { n.connect(0); mc_wait_idle(); if (!faults && !n.has_meta(0)) mc_fail("no metadata for a connected client"); }
    std::vector<std::thread> th; for (size_t w = 1; w < plans.size(); w++) th.emplace_back([&, w] { n.push_all(l, w); });
    for (int i = 0; i < late; i++) th.emplace_back([&, i] { int c = ref + i; n.connect(c); if (faults) n.lossy(c); if (leaver == i) { n.lossy(c); if (reset) sim_reset(n.handle(c)); else sim_close(n.handle(c)); } });
    if (faults && ref) n.lossy(0);
    n.push_all(l, 0); for (auto& t : th) t.join();
    uint64_t b = now(); ht_tcp_listener_stop(l); uint64_t e = now(); ht_tcp_listener_destroy(l);
    n.check(b, e); } ht_deinit();
}
static void s_join() { run(0, {"sb"}, true, 1); }
static void s_join_small() { run(30, {"sbs"}, true, 1); }
static void s_join_exact() { run(42, {"sss"}, true, 1); }
static void s_join_buffered() { run(200, {"sbs"}, true, 1); }
static void s_join_raw() { run(30, {"rrb"}, true, 1); }
static void s_join_first() { run(0, {"sp"}, false, 1); }
static void s_two_pushers() { run(30, {"sb", "bs"}, true, 0); }
static void s_two_pushers_join() { run(64, {"sb", "p"}, true, 1); }
static void s_two_join() { run(25, {"bs"}, false, 2); }
static void s_leave() { run(25, {"bsb"}, true, 1, 0); }
static void s_reset() { run(0, {"sss"}, true, 1, 0, true); }
static void s_leave_two() { run(0, {"sb"}, false, 2, 0); }
static void s_short() { run(30, {"sb"}, true, 1); }
static void s_fail() { run(30, {"ssb"}, true, 1, -1, false, true); }
// every buffer size, whole plan of kinds, one client: no schedule freedom needed
static void s_sizes() { size_t b = mc_choose_free(140); char plan[4] = {0}; for (int i = 0; i < 3; i++) { int k = mc_choose_free(b ? 4 : 3); plan[i] = "sbpr"[k]; } run(b, {plan}, true, 0); }
// many clients, each of which leaves at one of the stages or stays; removal from the client set must not disturb the rest
static void s_many()
{
    int nc = 2 + mc_choose_free(3); size_t buf = mc_choose_free(2) ? 30 : 0; ht_init(0, nullptr); { Net n(nc); n.plan(0, "sbsb"); HT_TCPListener* l = ht_tcp_listener_create(PORT, buf, nullptr); if (!l) mc_fail("not created");
    std::vector<int> when(nc); for (int c = 0; c < nc; c++) { when[c] = mc_choose_free(4); n.connect(c); mc_wait_idle(); if (when[c]) n.lossy(c); }
    for (int s = 0; s < 4; s++) { n.push(l, n.ev[0][s]); for (int c = 0; c < nc; c++) if (when[c] == s + 1) sim_reset(n.handle(c)); }
    uint64_t b = now(); ht_tcp_listener_stop(l); uint64_t e = now(); ht_tcp_listener_destroy(l); n.check(b, e); for (int c = 0; c < nc; c++) if (!when[c] && n.cl[c].seq.size() != 4) mc_fail("client %d got %zu of 4 events", c, n.cl[c].seq.size()); } ht_deinit();
}
// growth of the client set
static void s_growth()
{
    int nc = 1 + mc_choose_free(18), leave = mc_choose_free(4); ht_init(0, nullptr); { Net n(nc); n.plan(0, "sbsb"); HT_TCPListener* l = ht_tcp_listener_create(PORT, 0, nullptr); if (!l) mc_fail("not created");
    for (int c = 0; c < nc; c++) { n.connect(c); mc_wait_idle(); if (leave && c % leave == 0) n.lossy(c); }
    for (int s = 0; s < 4; s++) { n.push(l, n.ev[0][s]); if (s == 0 && leave) for (int c = 0; c < nc; c += leave) sim_close(n.handle(c)); }
    uint64_t b = now(); ht_tcp_listener_stop(l); uint64_t e = now(); ht_tcp_listener_destroy(l); n.check(b, e); for (int c = 0; c < nc; c++) if (!n.cl[c].lossy && n.cl[c].seq.size() != 4) mc_fail("client %d got %zu of 4 events", c, n.cl[c].seq.size()); } ht_deinit();
}
// the user's connection callback runs once per client and may push events itself
static HT_TCPListener* g_l; static Net* g_n; static int calls;
static void on_client(int fd, void* u) { mc_log(60, &fd, sizeof fd); if (u != &calls) mc_fail("wrong user data"); g_n->push(g_l, g_n->ev[1][g_n->ev[1][0].begin ? 1 : 0]); }
static void s_callback()
{
    ht_init(0, nullptr); { Net n(2); n.plan(0, "sb"); n.plan(1, "bs"); g_n = &n; HT_TCPListener* l = ht_tcp_listener_create(PORT, mc_choose_free(2) ? 30 : 0, nullptr); if (!l) mc_fail("not created"); g_l = l; ht_tcp_listener_set_on_client_connected_callback(l, on_client, &calls);
    n.connect(0); std::thread t([&] { n.push_all(l, 0); }); n.connect(1); t.join(); mc_wait_idle();
    uint64_t b = now(); ht_tcp_listener_stop(l); uint64_t e = now(); ht_tcp_listener_destroy(l); n.check(b, e); int k = 0; for (size_t i = 0; i < mc_log_count(); i++) k += mc_log_get(i).kind == 60; if (k != 2) mc_fail("the connection callback ran %d times for 2 clients", k); } ht_deinit();
}
// through a timeline
static void s_timeline()
{
    ht_init(0, nullptr); { Net n(2); HT_Timeline* t = ht_timeline_create(mc_choose_free(2) ? 50 : 0, HT_FALSE, HT_TRUE, nullptr, nullptr); HT_ErrorCode err; if (!ht_tcp_listener_register(t, PORT, 60, &err)) mc_fail("not registered"); n.connect(0); mc_wait_idle();
    std::thread th([&] { n.connect(1); }); for (int i = 0; i < 3; i++) HT_TIMELINE_PUSH_EVENT(t, EvTiny, (uint8_t)i); th.join(); ht_timeline_flush(t); ht_timeline_destroy(t);
    for (int c = 0; c < 2; c++) { size_t k; auto* p = sim_received(n.handle(c), &k); Bytes b((const char*)p, k); RDec r; r.run(b); if (!r.error.empty() || r.good != k) mc_fail("client %d: %s", c, r.error.c_str()); std::vector<uint64_t> v; for (auto& e : r.events) if (e.name == "EvTiny") v.push_back(e.num("v")); if (c == 0 && v.size() != 3) mc_fail("%zu of 3 events arrived", v.size()); for (size_t i = 0; i < v.size(); i++) if (v[i] != 3 - v.size() + i) mc_fail("client %d: wrong event", c); mc_outcome(v.data(), v.size() * 8); if (!sim_eof(n.handle(c))) mc_fail("connection left open"); } } ht_deinit();
}
static const McScenario sc[] = {
    {"join", s_join, 3, 99, 0, 0, 0, 0}, {"join_small_buffer", s_join_small, 3, 99, 0, 0, 0, 0}, {"join_exact_buffer", s_join_exact, 3, 99, 0, 0, 0, 0}, {"join_buffered", s_join_buffered, 2, 99, 0, 0, 0, 0}, {"join_raw", s_join_raw, 3, 99, 0, 0, 0, 0}, {"join_first", s_join_first, 3, 99, 0, 0, 0, 0},
    {"two_pushers", s_two_pushers, 3, 99, 0, 0, 0, 0}, {"two_pushers_join", s_two_pushers_join, 2, 4, 0, 0, 0, 0}, {"two_join", s_two_join, 2, 4, 0, 0, 0, 0}, {"leave", s_leave, 2, 5, 0, 0, 0, 0}, {"reset", s_reset, 2, 5, 0, 0, 0, 0}, {"leave_of_two", s_leave_two, 2, 4, 0, 0, 0, 0},
    {"short_sends", s_short, 1, 2, 2, 3, MC_ENV_SHORT_SEND, 0}, {"send_failures", s_fail, 1, 2, 1, 2, MC_ENV_SEND_FAIL | MC_ENV_SHORT_SEND, 0}, {"buffer_sizes", s_sizes, 0, 0, 0, 0, 0, 0}, {"many", s_many, 0, 1, 0, 0, 0, 0}, {"growth", s_growth, 0, 0, 0, 0, 0, 0}, {"callback", s_callback, 2, 4, 0, 0, 0, 0}, {"timeline", s_timeline, 2, 4, 0, 0, 0, 0},
};
int main(int argc, char** argv) { return mc_conc_main(argc, argv, sc, sizeof sc / sizeof *sc); }
