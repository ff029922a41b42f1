// P11: stopping and destroying TCP listeners, under every schedule and over all operation sequences up to a depth.
#include "tcplis.hpp"

struct Opt { size_t buf = 30; std::vector<const char*> plans; bool ref = true; int late = 0; bool twice = false, destroy_only = false, two_stoppers = false, leave = false, faults = false; };
static void finish(size_t heap, Net& n, uint64_t b, uint64_t e)
{
    for (size_t c = 0; c < n.cl.size(); c++) { int h = n.handle(c); if (h >= 0 && !sim_eof(h)) mc_fail("client %zu: the connection is still open after the listener was stopped", c); }
    if (sim_open_fds()) mc_fail("%d socket(s) left open", sim_open_fds()); if (mc_live_threads() != 1) mc_fail("a thread is left"); (void)heap;
    n.check(b, e);
}
static void run(Opt o)
{
    ht_init(0, nullptr);
    {
        Net n(o.ref + o.late); for (size_t w = 0; w < o.plans.size(); w++) n.plan(w, o.plans[w]); n.plan(o.plans.size(), "sb"); int after = o.plans.size();
        size_t heap = mc_heap_live(); HT_ErrorCode err = HT_ERR_UNKNOWN; HT_TCPListener* l = ht_tcp_listener_create(PORT, o.buf, &err); if (!l) mc_fail("listener not created (%d)", err); if (err != HT_ERR_OK) mc_fail("error %d on success", err);
        if (o.ref) { n.connect(0); mc_wait_idle(); }
        uint64_t b = 0, e = 0; if (o.faults) for (int c = 0; c < o.ref + o.late; c++) n.lossy(c);
        {
            std::vector<std::thread> th; for (size_t w = 0; w < o.plans.size(); w++) th.emplace_back([&, w] { n.push_all(l, w); });
            for (int i = 0; i < o.late; i++) th.emplace_back([&, i] { n.connect(o.ref + i); int h = n.handle(o.ref + i); if (o.leave && h >= 0) { n.lossy(o.ref + i); sim_close(h); } });
            if (o.two_stoppers) th.emplace_back([&] { ht_tcp_listener_stop(l); });
            if (o.destroy_only) { for (auto& t : th) t.join(); th.clear(); }
            b = o.two_stoppers ? 0 : now(); if (!o.destroy_only) { ht_tcp_listener_stop(l); e = now(); if (!o.two_stoppers) for (size_t c = 0; c < n.cl.size(); c++) { int h = n.handle(c); if (h >= 0 && n.has_meta(c) && !sim_eof(h)) mc_fail("client %zu: stop returned and the connection is still open", c); } if (o.twice) ht_tcp_listener_stop(l); n.push_all(l, after); }
            for (auto& t : th) t.join();
        }
        ht_tcp_listener_destroy(l); if (o.destroy_only) e = now();
        if (mc_heap_live() > heap) mc_fail("memory leaked"); finish(heap, n, b, o.two_stoppers ? ~0ull : e);
        // the port is free again
        l = ht_tcp_listener_create(PORT, 10, &err); if (!l) mc_fail("a second listener could not use the port (%d)", err); ht_tcp_listener_destroy(l); if (sim_open_fds()) mc_fail("%d socket(s) left open", sim_open_fds());
    }
    ht_deinit();
}
static void s_push() { Opt o; o.plans = {"sb"}; run(o); }
static void s_fault() { Opt o; o.plans = {"sb"}; o.faults = true; run(o); }
static void s_push2() { Opt o; o.plans = {"s", "b"}; o.buf = 0; run(o); }
static void s_connect() { Opt o; o.plans = {}; o.ref = false; o.late = 1; run(o); }
static void s_connect2() { Opt o; o.plans = {}; o.late = 1; o.twice = true; run(o); }
static void s_connect_push() { Opt o; o.plans = {"sb"}; o.late = 1; o.ref = false; run(o); }
static void s_two() { Opt o; o.plans = {"s"}; o.two_stoppers = true; run(o); }
static void s_destroy() { Opt o; o.plans = {"sb"}; o.late = 1; o.destroy_only = true; run(o); }
static void s_leave() { Opt o; o.plans = {"s"}; o.late = 1; o.leave = true; o.ref = false; run(o); }
// all sequences of operations on up to two listeners on one port
static void s_seq(int depth)
{
    ht_init(0, nullptr);
    {
        Net n(0); { RDec warm; warm.run(Bytes(20, 0)); } size_t heap = mc_heap_live(); HT_TCPListener* l[2] = {0, 0}; bool running[2] = {false, false}; int owner = -1; struct C { int h; int l; size_t events; bool gone; }; C cl[8]; int nc = 0; unsigned pushes = 0;
        auto end_clients = [&](int s) { McQuiet quiet; for (int i = 0; i < nc; i++) if (cl[i].l == s && !cl[i].gone) { size_t k; auto* p = sim_received(cl[i].h, &k); Bytes b((const char*)p, k); RDec r; r.run(b); size_t c = 0; for (auto& e : r.events) c += e.name == "EvTiny"; if (!r.error.empty() || r.good != k) mc_fail("client %d: damaged stream", i); if (c < cl[i].events) mc_fail("client %d got %zu of %zu events", i, c, cl[i].events); if (!sim_eof(cl[i].h)) mc_fail("client %d: connection still open", i); cl[i].gone = true; } };
        for (int d = 0; d < depth; d++)
        {
            int op = mc_choose_free(10); if (op == 0) break; int s = (op - 1) / 4; if (op == 9) { if (!nc || cl[nc - 1].gone) break; sim_reset(cl[nc - 1].h); cl[nc - 1].gone = true; mc_outcome("r", 1); continue; }
            int k = (op - 1) % 4; HT_ErrorCode err = HT_ERR_UNKNOWN;
            if (k == 0) { if (l[s]) { int h; if (owner < 0 || nc == 8) break; h = sim_connect(PORT); if (h < 0) mc_fail("a running listener refused a client"); cl[nc++] = {h, owner, 0, false}; } else { l[s] = ht_tcp_listener_create(PORT, s ? 0 : 50, &err); if (!l[s] != (owner >= 0)) mc_fail("creation %s while the port was %s", l[s] ? "succeeded" : "failed", owner >= 0 ? "taken" : "free"); if (!l[s] && err == HT_ERR_OK) mc_fail("failure not reported"); if (l[s]) { running[s] = true; owner = s; if (err != HT_ERR_OK) mc_fail("success not reported"); } } }
            else if (!l[s]) break;
            else if (k == 1) { Bytes b = ref_head(n.kt, 1, ++pushes); put(b, (char)1); ht_tcp_listener_callback((TEventPtr)b.data(), b.size(), HT_TRUE, l[s]); if (running[s]) for (int i = 0; i < nc; i++) if (cl[i].l == s && !cl[i].gone) cl[i].events++; }
            else { if (k == 2) ht_tcp_listener_stop(l[s]); else ht_tcp_listener_destroy(l[s]); end_clients(s); if (k == 3) l[s] = nullptr; running[s] = false; if (owner == s) owner = -1; }
            mc_wait_idle(); char c = op; mc_outcome(&c, 1);
        }
        for (int s = 0; s < 2; s++) if (l[s]) { ht_tcp_listener_destroy(l[s]); end_clients(s); }
        if (sim_open_fds()) mc_fail("%d socket(s) left open", sim_open_fds()); if (mc_live_threads() != 1) mc_fail("a thread is left"); if (mc_heap_live() > heap) mc_fail("memory leaked");
    }
    ht_deinit();
}
static void s_seq5() { s_seq(5); }
static void s_seq7() { s_seq(7); }
static void s_timeline()
{
    ht_init(0, nullptr); { Net n(1); size_t heap = mc_heap_live(); int k = mc_choose_free(3); HT_Timeline* t = ht_timeline_create(64, HT_TRUE, HT_TRUE, nullptr, nullptr); HT_ErrorCode err; HT_TCPListener* l = ht_tcp_listener_register(t, PORT, 60, &err); if (!l) mc_fail("not registered"); n.connect(0); mc_wait_idle();
    std::thread th([&] { HT_TIMELINE_PUSH_EVENT(t, EvTiny, 1); HT_TIMELINE_PUSH_EVENT(t, EvTiny, 2); }); if (k == 0) ht_timeline_unregister_all_listeners(t); else if (k == 1) ht_tcp_listener_stop(l); else { th.join(); ht_timeline_destroy(t); } if (k != 2) { th.join(); ht_timeline_destroy(t); }
    if (!sim_eof(n.handle(0))) mc_fail("connection still open"); if (sim_open_fds()) mc_fail("socket left open"); if (mc_live_threads() != 1) mc_fail("a thread is left"); if (mc_heap_live() > heap) mc_fail("memory leaked"); size_t c; auto* p = sim_received(n.handle(0), &c); Bytes b((const char*)p, c); RDec r; r.run(b); if (!r.error.empty() || r.good != c) mc_fail("damaged stream"); if (k == 2) { size_t e = 0; for (auto& x : r.events) e += x.name == "EvTiny"; if (e != 2) mc_fail("%zu of 2 events arrived", e); } mc_outcome(b.data(), 0); } ht_deinit();
}
static const McScenario sc[] = {
    {"push", s_push, 3, 99, 0, 0, 0, 0}, {"two_pushers", s_push2, 2, 4, 0, 0, 0, 0}, {"connect", s_connect, 4, 99, 0, 0, 0, 0}, {"connect_stop_twice", s_connect2, 2, 5, 0, 0, 0, 0}, {"connect_push", s_connect_push, 2, 4, 0, 0, 0, 0}, {"two_stoppers", s_two, 2, 4, 0, 0, 0, 0}, {"destroy", s_destroy, 2, 4, 0, 0, 0, 0}, {"leave", s_leave, 2, 4, 0, 0, 0, 0}, {"send_failure", s_fault, 1, 2, 1, 2, MC_ENV_SEND_FAIL | MC_ENV_SHORT_SEND, 0},
    {"sequences", s_seq5, 0, 0, 0, 0, 0, 0}, {"long_sequences", s_seq7, 0, 0, 0, 0, 0, 1}, {"timeline", s_timeline, 2, 4, 0, 0, 0, 0},
};
int main(int argc, char** argv) { return mc_conc_main(argc, argv, sc, sizeof sc / sizeof *sc); }
