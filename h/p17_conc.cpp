// P17, TCP listener: every failing memory request while creating it and while clients connect.
#include "tcplis.hpp"
#include "failalloc.hpp"
static FailAlloc* A;
static void* af(void* p, size_t n, void* ud) { McQuiet q; return FailAlloc::fn(p, n, ud); }
static void fin(size_t blocks) { if (A->error) mc_fail("%s", A->error); if (A->live.size() != blocks) mc_fail("%ld block(s) of the allocator leaked", (long)A->live.size() - (long)blocks); if (sim_open_fds()) mc_fail("%d socket(s) left open", sim_open_fds()); if (mc_live_threads() != 1) mc_fail("a thread is left"); }
static void begin() { A = new FailAlloc; ht_allocator_set(af, A); ht_init(0, nullptr); }
static void end() { ht_deinit(); ht_allocator_set(nullptr, nullptr); if (A->error) mc_fail("%s", A->error); }
static void s_create()
{
    begin(); { Net n(1); n.plan(0, "sb"); HT_Timeline* t = nullptr; int reg = mc_choose_free(2), k = mc_choose_free(12), buf = mc_choose_free(2) ? 64 : 0; bool p = mc_choose_free(2); if (reg) t = ht_timeline_create(0, HT_FALSE, HT_TRUE, nullptr, nullptr);
    size_t blocks = A->live.size(); HT_ErrorCode err = HT_ERR_UNKNOWN; A->arm(k, p); HT_TCPListener* l = reg ? ht_tcp_listener_register(t, PORT, buf, &err) : ht_tcp_listener_create(PORT, buf, &err); A->disarm();
    if (!A->fired && !l) mc_fail("creation failed although no request failed");
    if (!l) { if (err == HT_ERR_OK) mc_fail("the failure was not reported"); fin(blocks); l = ht_tcp_listener_create(PORT, buf, &err); if (!l) mc_fail("a later creation failed (%d)", err); if (reg && ht_timeline_register_listener_full(t, ht_tcp_listener_callback, l, (HT_DestroyCallback)ht_tcp_listener_destroy) != HT_ERR_OK) mc_fail("register"); }
    else if (err != HT_ERR_OK) mc_fail("error %d on success", err);
    n.connect(0); mc_wait_idle(); if (!n.has_meta(0)) mc_fail("no metadata"); n.push_all(l, 0); uint64_t b = now(); ht_tcp_listener_stop(l); uint64_t e = now(); if (reg) { ht_timeline_destroy(t); blocks = 0; } else ht_tcp_listener_destroy(l); if (!reg) fin(blocks); else if (sim_open_fds()) mc_fail("a socket is left open"); n.check(b, e); if (n.cl[0].seq.size() != 2) mc_fail("events are missing"); char c = A->fired; mc_outcome(&c, 1); }
    end();
}
// clients that cannot be remembered are turned away; the others are not affected, and pushing needs no memory it cannot do without
static void s_clients()
{
    begin(); { int nc = 1 + mc_choose_free(11); Net n(nc); n.plan(0, "sbr"); n.plan(1, "brs"); HT_ErrorCode err; size_t blocks = A->live.size(); HT_TCPListener* l = ht_tcp_listener_create(PORT, 30, &err); if (!l) mc_fail("not created");
    int k = mc_choose_free(3); A->arm(k, mc_choose_free(2)); for (int c = 0; c < nc; c++) { n.connect(c); mc_wait_idle(); if (n.handle(c) < 0) mc_fail("connection refused"); if (sim_eof(n.handle(c))) { if (!A->fired) mc_fail("a client was turned away for no reason"); n.lossy(c); } } A->disarm();
    n.push_all(l, 0); n.push_all(l, 1); uint64_t b = now(); ht_tcp_listener_stop(l); uint64_t e = now(); ht_tcp_listener_destroy(l); fin(blocks); n.check(b, e); for (int c = 0; c < nc; c++) if (!n.cl[c].lossy && n.cl[c].seq.size() != 6) mc_fail("client %d got %zu of 6 events", c, n.cl[c].seq.size()); char x = A->fired; mc_outcome(&x, 1); }
    end();
}
// the system refuses a socket, an option, the port, or a thread: reported, nothing is left behind, a later attempt works; an accept that fails now and then turns no one away
static void s_refused()
{
    begin(); { Net n(1); n.plan(0, "sb"); HT_Timeline* t = nullptr; int reg = mc_choose_free(2), kind = mc_choose_free(5), buf = mc_choose_free(2) ? 64 : 0; if (reg) t = ht_timeline_create(0, HT_FALSE, HT_TRUE, nullptr, nullptr);
    size_t blocks = A->live.size(), heap = mc_heap_live(); HT_ErrorCode err = HT_ERR_OK; mc_refuse(kind, 0, 1); int* leave_out = mc_choose_free(2) ? nullptr : (int*)&err; HT_TCPListener* l = reg ? ht_tcp_listener_register(t, PORT, buf, (HT_ErrorCode*)leave_out) : ht_tcp_listener_create(PORT, buf, (HT_ErrorCode*)leave_out);
    if (l || !mc_refused(kind)) mc_fail("a listener exists although the system refused a call"); if (leave_out && err == HT_ERR_OK) mc_fail("the failure was not reported");
    fin(blocks); if (mc_heap_live() != heap) mc_fail("%zd blocks leaked", (ssize_t)(mc_heap_live() - heap));
    l = reg ? ht_tcp_listener_register(t, PORT, buf, &err) : ht_tcp_listener_create(PORT, buf, &err); if (!l || err != HT_ERR_OK) mc_fail("a later creation failed (%d)", err);
    mc_refuse(MC_REFUSE_ACCEPT, 0, mc_choose_free(3)); n.connect(0); mc_wait_idle(); if (!n.has_meta(0)) mc_fail("no metadata"); n.push_all(l, 0); uint64_t b = now(); ht_tcp_listener_stop(l); uint64_t e = now(); if (reg) ht_timeline_destroy(t); else { ht_tcp_listener_destroy(l); fin(blocks); } if (sim_open_fds()) mc_fail("a socket is left open"); n.check(b, e); if (n.cl[0].seq.size() != 2) mc_fail("events are missing"); char c = kind; mc_outcome(&c, 1); }
    end();
}
static const McScenario sc[] = {{"tcp_create", s_create, 0, 0, 0, 0, 0, 0}, {"tcp_clients", s_clients, 0, 1, 0, 0, 0, 0}, {"tcp_refused", s_refused, 0, 1, 0, 0, 0, 0}};
int main(int argc, char** argv) { return mc_conc_main(argc, argv, sc, sizeof sc / sizeof *sc); }
