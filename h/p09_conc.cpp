// P09: ProtocolReader under every schedule of the reading thread with waiting, polling, stopping and destroying threads.
#include "conc.h"
#include "refdec.hpp"
#include <hawktracer/client_utils/tcp_client_stream.hpp>
#include <hawktracer/parser/event.hpp>
#include <hawktracer/parser/protocol_reader.hpp>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
using namespace HawkTracer::parser;
static const int PORT = 8765;

// n bare events (class 1 = HT_Event): id 1..n
static Bytes trace(int n) { Bytes b; for (int i = 1; i <= n; i++) b += ref_head(1, 100 + i, i); return b; }
// like a file: never blocks, ends after the last byte, must not be stopped while it is being read
struct MemStream : Stream
{
    Bytes d; size_t p = 0; bool started = false; int* stops; MemStream(Bytes b, int* s) : d(b), stops(s) {}
    bool start() override { started = true; p = 0; return true; } void stop() override { started = false; if (stops) (*stops)++; }
    int read_byte() override { if (!started) mc_fail("the stream is read after it was stopped"); return p < d.size() ? (unsigned char)d[p++] : -1; }
    bool read_data(char* b, size_t n) override { if (!started) mc_fail("the stream is read after it was stopped"); if (n > d.size() - p) { p = d.size(); return false; } memcpy(b, d.data() + p, n); p += n; return true; }
    bool is_continuous() override { return false; }
};
// like a connection: blocks until data arrives, the peer ends it, or it is stopped
struct LiveStream : Stream
{
    std::mutex m; std::condition_variable cv; Bytes d; size_t p = 0; bool ended = false;
    void feed(const Bytes& b) { { std::lock_guard<std::mutex> l(m); d += b; } cv.notify_all(); } void end() { { std::lock_guard<std::mutex> l(m); ended = true; } cv.notify_all(); }
    bool start() override { return true; } void stop() override { end(); }
    bool have(std::unique_lock<std::mutex>& l, size_t n) { cv.wait(l, [&] { return d.size() - p >= n || ended; }); return d.size() - p >= n; }
    int read_byte() override { std::unique_lock<std::mutex> l(m); return have(l, 1) ? (unsigned char)d[p++] : -1; }
    bool read_data(char* b, size_t n) override { std::unique_lock<std::mutex> l(m); if (!have(l, n)) return false; memcpy(b, d.data() + p, n); p += n; return true; }
    bool is_continuous() override { return true; }
};
enum { EV = 1, CB2 = 2, STOPPED = 3 };
static void watch(ProtocolReader& r) { for (int k : {EV, CB2}) r.register_events_listener([k](const Event& e) { uint64_t id = e.get_value<uint64_t>("id"); mc_log(k, &id, sizeof id); }); }
// every callback of the two listeners so far; checks stream order
static size_t delivered(const char* when)
{
    size_t n[3] = {0, 0, 0}; bool stopped = false;
    for (size_t i = 0; i < mc_log_count(); i++) { auto e = mc_log_get(i); if (e.kind == STOPPED) stopped = true; if (e.kind != EV && e.kind != CB2) continue; uint64_t id; memcpy(&id, e.data, sizeof id); if (stopped) mc_fail("%s: a callback ran after stop returned", when); if (id != ++n[e.kind]) mc_fail("%s: event %llu was delivered as number %zu", when, (unsigned long long)id, n[e.kind]); if (e.kind == CB2 && n[2] > n[1]) mc_fail("%s: callbacks out of order", when); }
    if (n[1] != n[2] && (stopped || mc_live_threads() == 1)) mc_fail("%s: an event reached only one of the two callbacks", when); return n[2];
}
static void must(size_t n, const char* when) { size_t d = delivered(when); if (d != n) mc_fail("%s: %zu of %zu events were delivered", when, d, n); }
static void fin(size_t heap) { if (mc_live_threads() != 1) mc_fail("a thread is left"); if (mc_heap_live() != heap) mc_fail("memory leaked"); if (sim_open_fds()) mc_fail("a socket is left open"); }

static void finite(int n, int waiters, bool poll, bool restop, bool via_destroy)
{
    size_t heap = mc_heap_live(); int stops = 0;
    {
        KlassRegister kr; { std::unique_ptr<ProtocolReader> r(new ProtocolReader(&kr, std::unique_ptr<Stream>(new MemStream(trace(n), &stops)), false)); watch(*r);
        if (!r->start()) mc_fail("start failed");
        std::vector<std::thread> th; for (int i = 1; i < waiters; i++) th.emplace_back([&] { r->wait_for_complete(); if (!r->eos()) mc_fail("end of stream is not reported after waiting"); must(n, "after waiting in a second thread"); });
        if (poll) th.emplace_back([&] { if (r->eos()) must(n, "when end of stream was reported"); });
        if (waiters) { r->wait_for_complete(); if (!r->eos()) mc_fail("end of stream is not reported after waiting"); must(n, "after waiting"); r->wait_for_complete(); }
        for (auto& t : th) t.join();
        if (!via_destroy) { r->stop(); mc_log(STOPPED, "", 0); if (!r->eos()) mc_fail("not at the end after stop"); if (restop) { r->stop(); r->wait_for_complete(); } } }
        size_t d = delivered("in the end"); mc_outcome(&d, sizeof d);
    }
    if (!stops) mc_fail("the stream was not stopped");
    fin(heap);
}
static void s_wait() { finite(2, 1, false, true, false); }
static void s_wait0() { finite(0, 1, true, false, true); }
static void s_wait2() { finite(1, 2, false, false, true); }
static void s_wait3() { finite(0, 3, false, false, false); }
static void s_poll() { finite(2, 1, true, false, false); }
static void s_nowait() { finite(2, 0, true, true, false); }
static void s_destroy() { finite(2, 0, false, false, true); }

// a stream that is idle at the end: everything fed is delivered if it ends, and stop returns at any moment
static void live(int before, int after, bool peer_ends, bool stop, bool waiter, bool destroy_only)
{
    size_t heap = mc_heap_live();
    {
        KlassRegister kr; size_t d;
        {
            LiveStream* s = new LiveStream; std::unique_ptr<ProtocolReader> r(new ProtocolReader(&kr, std::unique_ptr<Stream>(s), false)); watch(*r); s->feed(trace(before)); if (!r->start()) mc_fail("start failed");
            std::thread feeder; if (after || peer_ends) feeder = std::thread([&] { Bytes t = trace(before + after).substr(20 * before); if (after) { s->feed(t.substr(0, 7)); s->feed(t.substr(7)); } if (peer_ends) s->end(); });
            std::thread w; if (waiter) w = std::thread([&] { r->wait_for_complete(); if (!r->eos()) mc_fail("end of stream is not reported after waiting"); if (!stop) must(before + after, "after waiting"); });
            if (!stop) { r->wait_for_complete(); must(before + after, "after waiting"); }
            if (feeder.joinable() && !stop) feeder.join();
            if (waiter && !stop) w.join();
            if (!destroy_only) { r->stop(); mc_log(STOPPED, "", 0); if (!r->eos()) mc_fail("not at the end after stop"); }
            if (feeder.joinable()) feeder.join(); if (w.joinable()) w.join();
        }
        d = delivered("in the end"); if (d > size_t(before + after)) mc_fail("too many events"); mc_outcome(&d, sizeof d);
    }
    fin(heap);
}
static void s_live_end() { live(1, 1, true, false, false, false); }
static void s_live_end_waiter() { live(0, 1, true, false, true, true); }
static void s_live_stop_idle() { live(1, 0, false, true, false, false); }
static void s_live_stop_waiter() { live(1, 0, false, true, true, false); }
static void s_live_destroy() { live(1, 0, false, true, false, true); }
static void s_live_stop_feed() { live(1, 1, false, true, false, false); }
static void s_live_stop_end() { live(0, 1, true, true, true, false); }

// the same over the real TCP client stream
static void tcp(int n, bool peer_ends, bool stop, bool waiter)
{
    size_t heap = mc_heap_live(); int l = sim_listen(PORT);
    {
        KlassRegister kr; { ProtocolReader r(&kr, std::unique_ptr<Stream>(new HawkTracer::ClientUtils::TCPClientStream("127.0.0.1", PORT, false)), false); watch(r); if (!r.start()) mc_fail("start failed");
        std::thread peer([&] { int h = sim_accept(l); Bytes t = trace(n); if (n) { sim_send(h, t.data(), 25); sim_send(h, t.data() + 25, t.size() - 25); } if (peer_ends) sim_close(h); });
        std::thread w; if (waiter) w = std::thread([&] { r.wait_for_complete(); if (!stop) must(n, "after waiting"); });
        if (!stop) { r.wait_for_complete(); must(n, "after waiting"); }
        if (waiter && !stop) w.join();
        r.stop(); mc_log(STOPPED, "", 0); peer.join(); if (w.joinable()) w.join(); }
        size_t d = delivered("in the end"); if (d > size_t(n)) mc_fail("too many events"); mc_outcome(&d, sizeof d);
    }
    sim_close_listener(l); fin(heap);
}
static void s_tcp_end() { tcp(2, true, false, false); }
static void s_tcp_stop() { tcp(2, false, true, false); }
static void s_tcp_idle() { tcp(0, false, true, true); }
static void s_tcp_stop_end() { tcp(2, true, true, false); }
// a listener (the first or the second) stops the reader that calls it, at its k-th event; no later event may be handed over
static void listener_stops(int n, uint64_t k, bool live, bool first, int owner)      // owner: 0 waits and stops, 1 stops, 2 destroys, 3 waits in another thread and destroys
{
    size_t heap = mc_heap_live();
    {
        KlassRegister kr;
        {
            LiveStream* s = live ? new LiveStream : nullptr; if (s) s->feed(trace(n)); std::unique_ptr<ProtocolReader> r(new ProtocolReader(&kr, std::unique_ptr<Stream>(s ? (Stream*)s : new MemStream(trace(n), nullptr)), false)); ProtocolReader* p = r.get();
            for (int kind : {EV, CB2}) r->register_events_listener([=](const Event& e) { uint64_t id = e.get_value<uint64_t>("id"); if (id > k) mc_fail("event %llu was handed over after a listener had stopped the reader at event %llu", (unsigned long long)id, (unsigned long long)k); mc_log(kind, &id, sizeof id); if (id == k && (kind == EV) == first) { p->stop(); if (!p->eos()) mc_fail("not at the end after stop in a listener"); } });
            if (!r->start()) mc_fail("start failed");
            std::thread w; if (owner == 3) w = std::thread([&] { r->wait_for_complete(); if (!r->eos()) mc_fail("end of stream is not reported after waiting"); });
            if (owner == 0) { r->wait_for_complete(); if (!r->eos()) mc_fail("end of stream is not reported after waiting"); }
            if (owner < 2) { r->stop(); mc_log(STOPPED, "", 0); if (!r->eos()) mc_fail("not at the end after stop"); }
            if (w.joinable()) w.join();
        }
        size_t d = delivered("in the end"); if (owner == 0 && d != k) mc_fail("%zu of %llu events were delivered", d, (unsigned long long)k); mc_outcome(&d, sizeof d);
    }
    fin(heap);
}
static void s_ls_wait() { listener_stops(2, 1, false, true, 0); }
static void s_ls_wait_live() { listener_stops(2, 2, true, false, 0); }
static void s_ls_stop() { listener_stops(2, 1, true, false, 1); }
static void s_ls_destroy() { listener_stops(2, 2, false, true, 2); }
static void s_ls_waiter() { listener_stops(2, 1, true, true, 3); }
struct NoStream : MemStream { NoStream() : MemStream("", nullptr) {} bool start() override { return false; } };
static void s_no_start() { size_t heap = mc_heap_live(); { KlassRegister kr; ProtocolReader r(&kr, std::unique_ptr<Stream>(mc_choose_free(2) ? new NoStream : new MemStream("", nullptr)), true); if (mc_choose_free(2)) { r.stop(); } } fin(heap); mc_outcome("", 0); }
static void s_failed_start() { size_t heap = mc_heap_live(); { KlassRegister kr; ProtocolReader r(&kr, std::unique_ptr<Stream>(new NoStream), true); if (r.start()) mc_fail("start succeeded"); r.stop(); } fin(heap); mc_outcome("", 0); }
// no thread: start reports it, waiting returns, a later start works
static void s_no_thread()
{
    size_t heap = mc_heap_live(); int stops = 0; { KlassRegister kr; ProtocolReader r(&kr, std::unique_ptr<Stream>(new MemStream(trace(2), &stops)), true); watch(r); mc_refuse(MC_REFUSE_THREAD, 0, 1);
    if (r.start()) mc_fail("start succeeded without a thread"); r.wait_for_complete(); must(0, "after a failed start"); int how = mc_choose_free(3); if (how == 1) r.stop(); if (how) { if (!r.start()) mc_fail("a later start failed"); r.wait_for_complete(); must(2, "after a later start"); r.stop(); } }
    fin(heap); mc_outcome("", 0);
}
// a stopped reader can be started again, and reads the stream from its start, class descriptions included
static Bytes described() { Bytes b = ref_head(2, 1, 1); put(b, (uint32_t)50); b += Bytes("Again\0", 6); put(b, (uint8_t)2); for (int i = 0; i < 2; i++) { b += ref_head(3, 1, 1); put(b, (uint32_t)50); b += i ? Bytes("uint16_t\0v\0", 11) : Bytes("HT_Event\0base\0", 14); put(b, (uint64_t)(i ? 2 : 24)); put(b, (uint8_t)(i ? 99 : 1)); } for (int i = 1; i <= 2; i++) { b += ref_head(50, 1, i); put(b, (uint16_t)(300 + i)); } return b; }
static void restart(bool live, bool flat, bool at_end, bool stop = true)
{
    size_t heap = mc_heap_live(); Bytes d = described(); int l = live ? sim_listen(PORT) : -1;
    {
        KlassRegister kr; std::unique_ptr<Stream> st; if (live) st.reset(new HawkTracer::ClientUtils::TCPClientStream("127.0.0.1", PORT, false)); else st.reset(new MemStream(d, nullptr));
        ProtocolReader r(&kr, std::move(st), flat); int run = 0, err = 0; r.register_events_listener([&](const Event& e) { if (e.get_klass()->get_id() != 50) return; uint64_t id = flat ? e.get_value<uint64_t>("id") : e.get_value<Event*>("base")->get_value<uint64_t>("id"); if (e.get_value<uint16_t>("v") != 300 + id) err = 1; if (e.get_values().size() != (flat ? 4u : 2u)) err = 2; mc_log(EV, &id, sizeof id); });
        for (run = 0; run < 2; run++)
        {
            size_t before = mc_log_count(); if (!r.start()) mc_fail("start number %d failed", run + 1); int h = -1; if (live) { h = sim_accept(l); sim_send(h, d.data(), d.size()); sim_close(h); }
            if (at_end || run) r.wait_for_complete(); if (stop) r.stop(); size_t n = mc_log_count() - before; if (n > 2 || ((at_end || run) && n != 2)) mc_fail("run %d: %zu of 2 events were delivered", run + 1, n);
            for (size_t i = 0; i < n; i++) { uint64_t id; memcpy(&id, mc_log_get(before + i).data, sizeof id); if (id != i + 1) mc_fail("run %d: event %llu came as number %zu", run + 1, (unsigned long long)id, i + 1); } if (err) mc_fail("run %d: wrong fields (%d)", run + 1, err); mc_outcome(&n, sizeof n);
        }
    }
    if (live) sim_close_listener(l); fin(heap);
}
static void s_restart() { bool flat = mc_choose_free(2); restart(false, flat, mc_choose_free(2)); }
static void s_restart_tcp() { bool flat = mc_choose_free(2); restart(true, flat, mc_choose_free(2)); }
// starting again without stopping first; a listener cannot restart its own reader
static void s_restart_unstopped() { bool flat = mc_choose_free(2); int k = mc_choose_free(2); restart(k, flat, true, false); }
static void s_restart_running() { size_t heap = mc_heap_live(); int stops = 0; { KlassRegister kr; ProtocolReader r(&kr, std::unique_ptr<Stream>(new MemStream(trace(2), &stops)), false); r.register_events_listener([](const Event& e) { uint64_t id = e.get_value<uint64_t>("id"); mc_log(EV, &id, sizeof id); }); if (!r.start()) mc_fail("start failed"); if (!r.start()) mc_fail("second start failed"); size_t before = 0; r.wait_for_complete(); r.stop(); size_t n = mc_log_count(), first = n; for (size_t i = 0; i < n; i++) { uint64_t id; memcpy(&id, mc_log_get(i).data, sizeof id); if (i + 2 == n && id != 1) mc_fail("the last run does not start with the first event"); if (i + 1 == n && id != 2) mc_fail("the last run does not end with the last event"); } if (n < 2 || n > 4) mc_fail("%zu events", n); mc_outcome(&n, sizeof n); (void)before; (void)first; } fin(heap); }
static void s_restart_inside() { size_t heap = mc_heap_live(); int stops = 0; { KlassRegister kr; ProtocolReader r(&kr, std::unique_ptr<Stream>(new MemStream(trace(2), &stops)), false); bool twice = mc_choose_free(2); r.register_events_listener([&](const Event& e) { uint64_t id = e.get_value<uint64_t>("id"); mc_log(EV, &id, sizeof id); if (id == 1 || twice) if (r.start()) mc_fail("a listener restarted its own reader"); }); if (!r.start()) mc_fail("start failed"); r.wait_for_complete(); r.stop(); if (mc_log_count() != 2) mc_fail("%zu of 2 events were delivered", mc_log_count()); } fin(heap); mc_outcome("", 0); }
static const McScenario sc[] = {
    {"wait", s_wait, 5, 8, 0, 0, 0, 0}, {"wait_empty_poll", s_wait0, 4, 7, 0, 0, 0, 0}, {"two_waiters", s_wait2, 3, 99, 0, 0, MC_ENV_COND_ORDER, 0}, {"three_waiters", s_wait3, 2, 5, 0, 0, MC_ENV_COND_ORDER, 0}, {"poll", s_poll, 3, 99, 0, 0, 0, 0}, {"stop_any_time", s_nowait, 3, 99, 0, 0, 0, 0}, {"destroy_any_time", s_destroy, 99, 99, 0, 0, 0, 0},
    {"live_end", s_live_end, 2, 4, 0, 0, 0, 0}, {"live_end_waiters", s_live_end_waiter, 2, 4, 0, 0, MC_ENV_COND_ORDER, 0}, {"live_stop_idle", s_live_stop_idle, 4, 99, 0, 0, 0, 0}, {"live_stop_waiter", s_live_stop_waiter, 3, 5, 0, 0, 0, 0}, {"live_destroy", s_live_destroy, 4, 99, 0, 0, 0, 0}, {"live_stop_feed", s_live_stop_feed, 2, 4, 0, 0, 0, 0}, {"live_stop_end", s_live_stop_end, 2, 4, 0, 0, 0, 0},
    {"listener_stops_wait", s_ls_wait, 4, 99, 0, 0, 0, 0}, {"listener_stops_wait_live", s_ls_wait_live, 3, 6, 0, 0, 0, 0}, {"listener_stops_stop", s_ls_stop, 4, 99, 0, 0, 0, 0}, {"listener_stops_destroy", s_ls_destroy, 4, 99, 0, 0, 0, 0}, {"listener_stops_waiter", s_ls_waiter, 3, 6, 0, 0, 0, 0},
    {"tcp_end", s_tcp_end, 2, 4, 0, 0, 0, 0}, {"tcp_stop", s_tcp_stop, 2, 4, 0, 0, 0, 0}, {"tcp_stop_idle", s_tcp_idle, 1, 3, 0, 0, 0, 0}, {"tcp_stop_end", s_tcp_stop_end, 2, 3, 0, 0, 0, 0}, {"never_started", s_no_start, 99, 99, 0, 0, 0, 0}, {"no_thread", s_no_thread, 3, 99, 0, 0, 0, 0}, {"restart", s_restart, 2, 99, 0, 0, 0, 0}, {"restart_tcp", s_restart_tcp, 1, 2, 0, 0, 0, 0}, {"restart_unstopped", s_restart_unstopped, 1, 2, 0, 0, 0, 0}, {"restart_running", s_restart_running, 3, 99, 0, 0, 0, 0}, {"restart_inside", s_restart_inside, 2, 99, 0, 0, 0, 0}, {"failed_start", s_failed_start, 99, 99, 0, 0, 0, 0},
};
int main(int argc, char** argv) { return mc_conc_main(argc, argv, sc, sizeof sc / sizeof *sc); }
