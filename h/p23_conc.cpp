// P23: the whole live path in one explored process: timeline -> TCP listener -> (simulated) network -> client stream -> reader -> callback.
#include "tcplis.hpp"
#include <hawktracer/client_utils/tcp_client_stream.hpp>
#include <hawktracer/parser/event.hpp>
#include <hawktracer/parser/protocol_reader.hpp>
#include <memory>
using namespace HawkTracer::parser;
enum { GOT = 70, OTHER = 71, PUSH_B = 72, PUSH_E = 73, DONE = 74 };
struct Rec { int client; uint32_t who, seq; char text[8]; };
struct Viewer
{
    KlassRegister kr; std::unique_ptr<ProtocolReader> r; int c; bool up = false;
    Viewer(int client, bool flat) : c(client)
    {
        r.reset(new ProtocolReader(&kr, std::unique_ptr<Stream>(new HawkTracer::ClientUtils::TCPClientStream("127.0.0.1", PORT, false)), flat));
        r->register_events_listener([client](const Event& e) {
            if (e.get_klass()->get_name() != "EvMsg") return;
            Rec v; memset(&v, 0, sizeof v); v.client = client; v.who = e.get_value<uint32_t>("who"); v.seq = e.get_value<uint32_t>("seq"); strncpy(v.text, e.get_value<char*>("text"), 7); mc_log(GOT, &v, sizeof v); });
    }
    void start() { up = r->start(); }
};
static std::string label(uint32_t who, uint32_t seq) { return std::string(1 + seq % 3, 'a' + who); }
static void push(HT_Timeline* t, uint32_t who, uint32_t seq) { uint32_t v[2] = {who, seq}; mc_log(PUSH_B, v, sizeof v); std::string s = label(who, seq); HT_TIMELINE_PUSH_EVENT(t, EvMsg, who, seq, s.c_str()); mc_log(PUSH_E, v, sizeof v); }
// per client: what it decoded, in order
static std::vector<std::pair<uint32_t, uint32_t>> got(int client)
{
    std::vector<std::pair<uint32_t, uint32_t>> o;
    for (size_t i = 0; i < mc_log_count(); i++) { auto l = mc_log_get(i); if (l.kind != GOT) continue; Rec v; memcpy(&v, l.data, sizeof v); if (v.client != client) continue; if (label(v.who, v.seq) != v.text) mc_fail("client %d: event %u/%u decoded with text '%s'", client, v.who, v.seq, v.text); o.push_back({v.who, v.seq}); }
    return o;
}
static void check(int client, int writers, int n, bool all, bool to_the_end, const char* when)
{
    McQuiet quiet; auto g = got(client); std::vector<int> next(writers, -1);
    for (auto& e : g)
    {
        if ((int)e.first >= writers || (int)e.second >= n) mc_fail("%s: client %d decoded an event that was never traced", when, client);
        int& x = next[e.first]; if (x >= 0 && x != (int)e.second) mc_fail("%s: client %d: event %d of writer %u is missing, repeated or out of order", when, client, x, e.first);
        if (x < 0 && all && e.second != 0) mc_fail("%s: client %d missed the first events", when, client);
        x = e.second + 1;
    }
    if (to_the_end) for (int w = 0; w < writers; w++) { if (next[w] >= 0 && next[w] != n) mc_fail("%s: client %d misses the last events of writer %d", when, client, w); if (all && next[w] != n) mc_fail("%s: client %d got nothing of writer %d", when, client, w); }
    Bytes o; for (auto& e : g) { put(o, e.first); put(o, e.second); } mc_outcome(o.data(), o.size());
}
struct World { HT_Timeline* t; HT_TCPListener* l; };
static World world(size_t cap, size_t buf, bool safe)
{
    ht_init(0, nullptr); ht_EvMsg_register_event_klass(); HT_ErrorCode e; World w;
    w.t = ht_timeline_create(cap, safe, HT_TRUE, nullptr, nullptr); w.l = ht_tcp_listener_register(w.t, PORT, buf, &e); if (!w.l) mc_fail("listener not created"); return w;
}
// connected before anything is traced: everything arrives, whatever the buffering
// coarse: the client's own threads (ids 2, 3 of the first client, ...) are only left where they block (P09 and P12 look inside)
static void before(size_t cap, size_t buf, int writers, int n, bool flat, int clients = 1, unsigned coarse = 0)
{
    { mc_calm(true); World w = world(cap, buf, writers > 1); std::vector<std::unique_ptr<Viewer>> v; for (int c = 0; c < clients; c++) { v.emplace_back(new Viewer(c, flat)); v[c]->start(); if (!v[c]->up) mc_fail("client cannot connect"); }
    mc_wait_idle(); mc_calm(false); mc_atomic_threads(coarse);
    std::vector<std::thread> th; for (int k = 1; k < writers; k++) th.emplace_back([&, k] { for (int i = 0; i < n; i++) push(w.t, k, i); });
    for (int i = 0; i < n; i++) push(w.t, 0, i); for (auto& x : th) x.join();
    ht_timeline_flush(w.t); ht_timeline_destroy(w.t);
    for (int c = 0; c < clients; c++) { v[c]->r->wait_for_complete(); check(c, writers, n, true, true, "after the end"); v[c]->r->stop(); } }
    ht_deinit(); if (sim_open_fds()) mc_fail("sockets left open");
}
static void s_before() { before(0, 0, 1, 2, true); }
static void s_buffered() { before(80, 100, 1, 3, false, 1, 0xc); }
static void s_writers() { before(0, 50, 2, 2, true, 1, 0xc); }
static void s_two_clients() { before(0, 0, 1, 1, true, 2, 0x3c); }
// connecting at any moment: a gap-free tail
static void any(unsigned coarse, size_t buf)
{
    { World w = world(0, buf, false); mc_atomic_threads(coarse); Viewer v(0, true); std::thread c([&] { v.start(); }); for (int i = 0; i < 3; i++) push(w.t, 0, i); c.join(); if (!v.up) mc_fail("client cannot connect");
    mc_wait_idle(); mc_calm(true); push(w.t, 0, 3); ht_timeline_destroy(w.t); v.r->wait_for_complete(); check(0, 1, 4, false, true, "after the end"); { McQuiet q; auto g = got(0); if (g.empty() || g.back().second != 3) mc_fail("an event traced while the client was connected did not arrive"); } v.r->stop(); }
    ht_deinit(); if (sim_open_fds()) mc_fail("sockets left open");
}
static void s_any() { any(0x18, 0); }
static void s_any2() { any(0x1a, 60); }
// the viewer goes away at any moment; tracing goes on, and a second viewer sees the rest
static void s_leave()
{
    { mc_calm(true); World w = world(0, 0, false); { Viewer v(0, true); v.start(); mc_wait_idle(); mc_calm(false); std::thread c([&] { v.r->stop(); mc_log(DONE, "", 0); }); for (int i = 0; i < 2; i++) push(w.t, 0, i); c.join(); check(0, 1, 2, true, false, "after leaving"); }
    mc_calm(true);
    Viewer u(1, true); u.start(); if (!u.up) mc_fail("second client cannot connect"); mc_wait_idle(); push(w.t, 0, 2); ht_timeline_destroy(w.t); u.r->wait_for_complete(); check(1, 1, 3, false, true, "second client"); { McQuiet q; if (got(1).size() != 1) mc_fail("the second client decoded %zu events instead of 1", got(1).size()); } u.r->stop(); }
    ht_deinit(); if (sim_open_fds()) mc_fail("sockets left open");
}
static const McScenario sc[] = {{"before", s_before, 1, 2, 0, 0, 0, 0}, {"buffered", s_buffered, 1, 2, 0, 0, 0, 0}, {"writers", s_writers, 1, 2, 0, 0, 0, 0}, {"two_clients", s_two_clients, 0, 1, 0, 0, 0, 0}, {"any_time", s_any, 0, 1, 0, 0, 0, 0}, {"any_time_coarse", s_any2, 1, 3, 0, 0, 0, 0}, {"leave", s_leave, 1, 1, 0, 0, 0, 0}};
int main(int argc, char** argv) { return mc_conc_main(argc, argv, sc, sizeof sc / sizeof *sc); }
