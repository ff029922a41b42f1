// P12: the TCP client stream under every schedule of receiver, reader, peer and stopper, all segmentations and read mixes.
#include "conc.h"
#include <hawktracer/client_utils/tcp_client_stream.hpp>
#include <cstring>
#include <memory>
#include <string>
#include <thread>
using HawkTracer::ClientUtils::TCPClientStream;
typedef std::string Bytes;
static const int PORT = 8765;
enum { BYTE = 0 };   // a read call: 0 = read_byte, n = read_data(n)
struct Got { Bytes b; bool eof = false; };
static bool rd(TCPClientStream& s, int call, Got& g)
{
    if (call == BYTE) { int c = s.read_byte(); if (c < 0) { g.eof = true; return false; } if (c > 255) mc_fail("read_byte returned %d", c); g.b += (char)c; return true; }
    Bytes buf(call, '\x5a'); if (!s.read_data(&buf[0], call)) { g.eof = true; return false; } g.b += buf; return true;
}
static void fin(size_t heap, const char* where) { if (sim_open_fds()) mc_fail("%s: %d socket(s) left open", where, sim_open_fds()); if (mc_live_threads() != 1) mc_fail("%s: a thread is left", where); if (mc_heap_live() != heap) mc_fail("%s: memory leaked", where); }
static void out(const Got& g) { mc_outcome(g.b.data(), g.b.size()); mc_outcome(&g.eof, 1); }

// peer sends `data` in all compositions; the reader uses the call pattern; end of stream must come exactly after the data
static void exact(const Bytes& data, std::vector<int> calls, bool split, bool reset = false, bool stop_first = false)
{
    size_t heap = mc_heap_live(); int l = sim_listen(PORT);
    {
        unsigned mask = split ? mc_choose_free(1 << (data.size() - 1)) : 0;
        TCPClientStream s("127.0.0.1", PORT, false); if (!s.start()) mc_fail("start failed"); if (!s.is_connected()) mc_fail("not connected after start");
        std::thread peer([&] { int h = sim_accept(l); size_t from = 0; for (size_t i = 0; i < data.size(); i++) if ((mask >> i & 1) || i + 1 == data.size()) { sim_send(h, data.data() + from, i + 1 - from); from = i + 1; } if (reset) sim_reset(h); else sim_close(h); });
        Got g; size_t k = 0; size_t left = data.size();
        for (;;)
        {
            int c = calls[k++ % calls.size()]; size_t need = c ? c : 1; bool r = rd(s, c, g);
            if (!reset && r != (need <= left)) mc_fail("a read of %zu byte(s) with %zu left %s", need, left, r ? "succeeded" : "reported end of stream");
            if (!r) { if (data.compare(0, g.b.size(), g.b) != 0) mc_fail("bytes differ from what the peer sent"); break; }
            if (g.b.size() > data.size() || data.compare(0, g.b.size(), g.b) != 0) mc_fail("bytes differ from what the peer sent (after %zu bytes)", g.b.size());
            left = data.size() - g.b.size();
        }
        for (int i = 0; i < 2; i++) if (!reset && rd(s, calls[k++ % calls.size()], g)) mc_fail("data after end of stream");
        if (stop_first) { s.stop(); peer.join(); s.stop(); } else { peer.join(); if (!reset && s.is_connected()) mc_fail("still connected after end of stream"); }
        out(g);
    }
    sim_close_listener(l); fin(heap, "in the end");
}
static void s_segments() { exact("\x01\xff\x80\x7f", {BYTE}, true); }
static void s_segments_block() { exact(Bytes("\x00\xff\x80\x41\xfe", 5), {2, BYTE}, true); }
static void s_segments_mix() { std::vector<int> c; for (int i = 0; i < 3; i++) c.push_back(mc_choose_free(4)); exact("\x01\xff\x80\x7f", c, true); }
static void s_all_bytes() { Bytes d; for (int i = 0; i < 256; i++) d += (char)i; int n = mc_choose_free(3); exact(d, {n == 0 ? BYTE : n == 1 ? 1 : 7}, false); }
static void s_large() { Bytes d; for (int i = 0; i < 2600; i++) d += (char)(i * 7 + i / 256); static const int sz[] = {1023, 1024, 1025, 2600, 1300}; exact(d, {sz[mc_choose_free(5)], BYTE}, false); }
static void s_reset() { exact("ab", {BYTE}, true, true); }
static void s_empty_close() { size_t heap = mc_heap_live(); int l = sim_listen(PORT); { TCPClientStream s("127.0.0.1", PORT, false); if (!s.start()) mc_fail("start failed"); std::thread p([&] { int h = sim_accept(l); sim_close(h); }); Got g; if (rd(s, mc_choose_free(2) ? 3 : BYTE, g)) mc_fail("data from nowhere"); p.join(); out(g); } sim_close_listener(l); fin(heap, "in the end"); }
static void s_stop_after() { exact("abc", {BYTE, 2}, true, false, true); }

// stop at any moment while a reader is blocked or reading and the peer may send or close
static void stopping(const Bytes& data, std::vector<int> calls, bool peer_closes, bool destroy)
{
    size_t heap = mc_heap_live(); int l = sim_listen(PORT); int h = -1;
    {
        std::unique_ptr<TCPClientStream> s(new TCPClientStream("127.0.0.1", PORT, false)); if (!s->start()) mc_fail("start failed"); h = sim_accept(l);
        Got g; std::thread peer; if (!data.empty() || peer_closes) peer = std::thread([&, h] { if (!data.empty()) sim_send(h, data.data(), data.size()); if (peer_closes) sim_close(h); });
        std::thread reader([&] { size_t k = 0; while (rd(*s, calls[k++ % calls.size()], g)) if (g.b.size() > data.size()) mc_fail("more bytes than were sent"); });
        s->stop(); if (s->is_connected()) mc_fail("connected after stop");
        reader.join(); if (peer.joinable()) peer.join();
        if (data.compare(0, g.b.size(), g.b) != 0) mc_fail("bytes differ from what the peer sent");
        if (destroy) s.reset(); else s->stop(); out(g);
    }
    if (!peer_closes && !sim_eof(h)) mc_fail("the connection is still open for the peer after stop");
    sim_close_listener(l); fin(heap, "after stop");
}
static void s_stop_idle() { stopping("", {BYTE}, false, true); }
static void s_stop_idle_block() { stopping("ab", {4}, false, false); }
static void s_stop_data() { stopping("ab", {BYTE}, false, false); }
static void s_stop_close() { stopping("a", {BYTE}, true, true); }
static void s_stop_close2() { stopping("", {2}, true, false); }
static void s_stop_unread() { size_t heap = mc_heap_live(); int l = sim_listen(PORT); { TCPClientStream s("127.0.0.1", PORT, false); s.start(); int h = sim_accept(l); std::thread p([&] { sim_send(h, "xyz", 3); sim_close(h); }); if (mc_choose_free(2)) s.stop(); p.join(); } sim_close_listener(l); fin(heap, "in the end"); }

// a second connection on the same stream object yields only the second peer's bytes
static void restart(bool stop_between, bool peer_closed, bool read_all)
{
    size_t heap = mc_heap_live(); int l = sim_listen(PORT);
    {
        TCPClientStream s("127.0.0.1", PORT, false); if (!s.start()) mc_fail("start failed"); int h = sim_accept(l); sim_send(h, "old", 3); if (peer_closed) sim_close(h);
        Got g; if (read_all) { for (int i = 0; i < 3; i++) if (!rd(s, BYTE, g)) mc_fail("data missing"); } else if (!rd(s, BYTE, g)) mc_fail("data missing");
        if (stop_between) s.stop(); if (peer_closed && !stop_between && read_all && rd(s, BYTE, g)) mc_fail("data from nowhere");
        if (!s.start()) mc_fail("second start failed"); int h2 = sim_accept(l); sim_send(h2, "NEW", 3); sim_close(h2);
        if (!peer_closed && !sim_eof(h)) mc_fail("the first connection is still open");
        Got g2; while (rd(s, BYTE, g2)) {} if (g2.b != "NEW") mc_fail("the second connection yielded '%s'", g2.b.c_str()); out(g2);
    }
    sim_close_listener(l); fin(heap, "in the end");
}
static void s_restart() { int k = mc_choose_free(8); restart(k & 1, k & 2, k & 4); }
// connecting
static void s_refused() { size_t heap = mc_heap_live(); { TCPClientStream s("127.0.0.1", PORT, false); if (s.start()) mc_fail("start succeeded without a server"); if (s.is_connected()) mc_fail("connected without a server"); if (sim_open_fds()) mc_fail("a socket is left open"); if (mc_choose_free(2)) { int l = sim_listen(PORT); if (!s.start()) mc_fail("start failed"); int h = sim_accept(l); sim_send(h, "q", 1); sim_close(h); Got g; if (!rd(s, BYTE, g) || g.b != "q" || rd(s, BYTE, g)) mc_fail("wrong data"); sim_close_listener(l); } } fin(heap, "in the end"); mc_outcome("", 0); }
static void s_wait_server() { size_t heap = mc_heap_live(); { TCPClientStream s("127.0.0.1", PORT, true); std::thread srv([] { mc_point(); int l = sim_listen(PORT); int h = sim_accept(l); sim_send(h, "hi", 2); sim_close(h); sim_close_listener(l); }); if (!s.start()) mc_fail("start failed"); Got g; while (rd(s, BYTE, g)) {} if (g.b != "hi") mc_fail("wrong data"); srv.join(); out(g); } fin(heap, "in the end"); }
// no socket or no thread: reported, nothing is left open, a later start works
static void s_no_resources() { size_t heap = mc_heap_live(); int l = sim_listen(PORT); { TCPClientStream s("127.0.0.1", PORT, mc_choose_free(2)); int kind = mc_choose_free(2) ? MC_REFUSE_THREAD : MC_REFUSE_SOCKET; mc_refuse(kind, 0, 1); if (s.start()) mc_fail("start succeeded without a %s", kind == MC_REFUSE_THREAD ? "thread" : "socket"); if (s.is_connected()) mc_fail("connected"); if (sim_open_fds()) mc_fail("a socket is left open"); if (kind == MC_REFUSE_THREAD) { int h = sim_accept(l); if (!sim_eof(h)) mc_fail("the connection was not closed"); sim_close(h); }
    if (mc_choose_free(2)) { if (!s.start()) mc_fail("start failed"); int h = sim_accept(l); sim_send(h, "q", 1); sim_close(h); Got g; if (!rd(s, BYTE, g) || g.b != "q" || rd(s, BYTE, g)) mc_fail("wrong data"); } } sim_close_listener(l); fin(heap, "in the end"); mc_outcome("", 0); }
static const McScenario sc[] = {
    {"segments", s_segments, 2, 99, 0, 0, MC_ENV_SEGMENT, 0}, {"segments_block", s_segments_block, 1, 99, 0, 0, MC_ENV_SEGMENT, 0}, {"segments_mix", s_segments_mix, 1, 4, 0, 0, 0, 0}, {"all_bytes", s_all_bytes, 1, 3, 0, 0, 0, 0}, {"large", s_large, 1, 4, 0, 0, 0, 0},
    {"reset", s_reset, 3, 99, 0, 0, 0, 0}, {"close_empty", s_empty_close, 5, 99, 0, 0, 0, 0}, {"stop_after", s_stop_after, 2, 5, 0, 0, 0, 0}, {"stop_idle", s_stop_idle, 6, 99, 0, 0, 0, 0}, {"stop_idle_block", s_stop_idle_block, 3, 99, 0, 0, 0, 0},
    {"stop_data", s_stop_data, 2, 99, 0, 0, MC_ENV_SEGMENT, 0}, {"stop_close", s_stop_close, 3, 99, 0, 0, 0, 0}, {"stop_close_block", s_stop_close2, 3, 99, 0, 0, 0, 0}, {"stop_unread", s_stop_unread, 5, 99, 0, 0, 0, 0}, {"restart", s_restart, 3, 99, 0, 0, 0, 0}, {"refused", s_refused, 4, 99, 0, 0, 0, 0}, {"no_resources", s_no_resources, 3, 99, 0, 0, 0, 0}, {"wait_server", s_wait_server, 2, 4, 0, 0, 0, 0},
};
int main(int argc, char** argv) { return mc_conc_main(argc, argv, sc, sizeof sc / sizeof *sc); }
