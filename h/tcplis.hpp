// Shared by P10 and P11: a TCP listener, its simulated clients, and the oracle for what clients may have received.
#pragma once
#include "conc.h"
#include "meta.hpp"
#include <hawktracer/listeners/tcp_listener.h>
#include <hawktracer/timeline_listener.h>
#include <thread>

static const int PORT = 8765;
static void meta_cb(TEventPtr, size_t n, HT_Boolean, void* u) { *(size_t*)u += n; }
struct Ev { int w, i; uint64_t id; Bytes ser, raw; uint64_t begin = 0, end = 0; std::vector<char> knew; };   // knew[c]: client c had the whole metadata when the push began
struct Client { int h = -1; bool lossy = false; Bytes got; std::vector<Ev*> seq; bool meta = false; };
enum { LOG_HANDLE = 50, LOG_T = 51, LOG_LOSSY = 52 };
static uint64_t now() { mc_log(LOG_T, "", 0); return mc_log_count(); }
struct Net
{
    uint32_t kt, km; size_t meta_len = 0; std::vector<std::vector<Ev>> ev; std::vector<Client> cl;
    Net(int clients = 0) : cl(clients) { kt = ht_EvTiny_register_event_klass(); km = ht_EvMsg_register_event_klass(); ht_timeline_listener_push_metadata(meta_cb, &meta_len, HT_TRUE); }
    // s small serialised, b big serialised (40 byte string), r raw small, p two small ones in one delivery
    void plan(int w, const char* ops)
    {
        if ((int)ev.size() <= w) ev.resize(w + 1);
        for (int i = 0; ops[i]; i++)
        {
            Ev e; e.w = w; e.i = i; e.id = 100 * (w + 1) + i; e.knew.assign(cl.size(), 0);
            auto tiny = [&](uint64_t id) { EvTiny t; memset(&t, 0, sizeof t); t.base.klass = ht_EvTiny_get_event_klass_instance(); t.base.timestamp = 9; t.base.id = id; t.v = id; e.raw.append((char*)&t, sizeof t); e.ser += ref_head(kt, 9, id); put(e.ser, t.v); };
            if (ops[i] == 'b') { Msg m{9, e.id, (uint32_t)w, (uint32_t)i, std::string(40, 'a' + w)}; e.ser = ref_msg(km, m); } else { tiny(e.id); if (ops[i] == 'p') tiny(e.id + 50); if (ops[i] != 'r') e.raw.clear(); }
            ev[w].push_back(e);
        }
    }
    void connect(int c) { int h = sim_connect(PORT); int v[2] = {c, h}; mc_log(LOG_HANDLE, v, sizeof v); }
    void lossy(int c) { mc_log(LOG_LOSSY, &c, sizeof c); }        // this client may miss the end (it went away or its connection failed)
    int handle(int c) const { McQuiet quiet; for (size_t i = 0; i < mc_log_count(); i++) { auto e = mc_log_get(i); if (e.kind == LOG_HANDLE) { int v[2]; memcpy(v, e.data, sizeof v); if (v[0] == c) return v[1]; } } return -2; }   // -2: not connected yet, -1: refused
    bool has_meta(int c) const { int h = handle(c); if (h < 0) return false; size_t n; sim_received(h, &n); return n >= meta_len; }
    void push(HT_TCPListener* l, Ev& e) { for (size_t c = 0; c < cl.size(); c++) e.knew[c] = has_meta(c); e.begin = now(); Bytes& b = e.raw.empty() ? e.ser : e.raw; ht_tcp_listener_callback((TEventPtr)b.data(), b.size(), e.raw.empty() ? HT_TRUE : HT_FALSE, l); e.end = now(); }
    void push_all(HT_TCPListener* l, int w) { for (Ev& e : ev[w]) push(l, e); }
    // after the end: what every client got must be metadata plus a gap-free run of whole deliveries up to the end
    void check(uint64_t stop_begin, uint64_t stop_end)
    {
        McQuiet quiet;
        for (size_t i = 0; i < mc_log_count(); i++) { auto e = mc_log_get(i); if (e.kind == LOG_LOSSY) { int c; memcpy(&c, e.data, sizeof c); cl[c].lossy = true; } }
        auto want = core_klasses(); auto u = user_klasses(); want.push_back(u[0]); want.push_back(u[1]);
        for (size_t c = 0; c < cl.size(); c++)
        {
            Client& k = cl[c]; k.h = handle(c); if (k.h < 0) continue; size_t n; auto* p = sim_received(k.h, &n); k.got.assign((const char*)p, n);
            if (n < meta_len) { RDec r; r.run(k.got); if (!r.error.empty()) mc_fail("client %zu: %s", c, r.error.c_str()); for (auto& e : r.events) if (!e.meta && e.name != "HT_SystemInfoEvent") mc_fail("client %zu received events before the metadata", c); continue; }
            Bytes m = k.got.substr(0, meta_len); RDec r; r.run(m); if (!r.error.empty() || r.good != meta_len) mc_fail("client %zu: the metadata is damaged: %s", c, r.error.c_str());
            for (auto& e : r.events) if (!e.meta && e.name != "HT_SystemInfoEvent") mc_fail("client %zu: metadata and events are mixed", c);
            std::string x = compare_meta(read_serialised(m), want, false); if (!x.empty()) mc_fail("client %zu: metadata: %s", c, x.c_str()); k.meta = true;
            size_t q = meta_len;
            while (q < n)
            {
                Ev* hit = nullptr; for (auto& v : ev) for (auto& e : v) if (n - q >= e.ser.size() && k.got.compare(q, e.ser.size(), e.ser) == 0) hit = &e;
                if (!hit) { bool part = false; for (auto& v : ev) for (auto& e : v) if (n - q < e.ser.size() && e.ser.compare(0, n - q, k.got, q, n - q) == 0) part = true; if (k.lossy && part) break; mc_fail("client %zu: what follows event number %zu is %s", c, k.seq.size(), part ? "cut off" : "not a whole event that was pushed"); }
                for (auto* o : k.seq) if (o == hit) mc_fail("client %zu: an event was sent twice", c);
                k.seq.push_back(hit); q += hit->ser.size();
            }
        }
        // one order for all clients
        std::vector<Ev*> order; for (auto& k : cl) if (!k.lossy && k.seq.size() > order.size()) order = k.seq;
        for (size_t c = 0; c < cl.size(); c++)
        {
            Client& k = cl[c];
            for (size_t i = 0; i < k.seq.size(); i++) { for (size_t j = 0; j < i; j++) if (k.seq[i]->end < k.seq[j]->begin) mc_fail("client %zu: events are out of order", c); if (k.seq[i]->begin > stop_end) mc_fail("client %zu: an event pushed after the stop was sent", c); }
            if (!k.lossy) { for (size_t i = 0; i < k.seq.size(); i++) if (k.seq[k.seq.size() - 1 - i] != order[order.size() - 1 - i]) mc_fail("client %zu: events are missing or in another order than at other clients", c); }
            else if (!k.seq.empty() && !order.empty()) { size_t at = 0; while (at < order.size() && order[at] != k.seq[0]) at++; for (size_t i = 0; at < order.size() && i < k.seq.size(); i++) if (at + i >= order.size() || order[at + i] != k.seq[i]) mc_fail("client %zu: events are missing or in another order than at other clients", c); }
            for (auto& v : ev) for (auto& e : v) if (c < e.knew.size() && e.knew[c] && e.end < stop_begin && !k.lossy) { bool in = false; for (auto* o : k.seq) in |= o == &e; if (!in) mc_fail("client %zu: event %llu, pushed after the client had its metadata, is missing", c, (unsigned long long)e.id); }
            Bytes o; for (auto* e : k.seq) put(o, (uint16_t)e->id); put(o, k.meta); mc_outcome(o.data(), o.size());
        }
    }
};
