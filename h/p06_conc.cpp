// P06: schedules of deliveries, flushes and stop on one file-dump listener.
#include "conc.h"
#include "meta.hpp"
#include <hawktracer/listeners/file_dump_listener.h>
#include <thread>

enum { D_SMALL, D_BIG, D_RAW, D_PAIR, FLUSH, SFLUSH, STOP };
static const char* kPath = "/mcsim/dump";
struct Ev { int thread, idx; Bytes ser, raw; std::vector<std::string> txt; uint64_t begin = 0, end = 0; int kind; Bytes snap; };
static uint64_t now() { mc_log(1, "", 0); return mc_log_count(); }
struct Span { uint64_t b, e; };

static void run(size_t bufsize, std::vector<std::vector<int>> plan)
{
    ht_init(0, nullptr); uint32_t kt = ht_EvTiny_register_event_klass(), km = ht_EvMsg_register_event_klass();
    HT_ErrorCode err; HT_FileDumpListener* l = ht_file_dump_listener_create(kPath, bufsize, &err);
    if (!l) mc_fail("listener not created");
    std::vector<std::vector<Ev>> ev(plan.size());
    for (size_t w = 0; w < plan.size(); w++) for (size_t i = 0; i < plan[w].size(); i++)
    {
        Ev e; e.thread = w; e.idx = i; e.kind = plan[w][i]; uint64_t id = 100 * w + i;
        auto tiny = [&](uint64_t id) { EvTiny t; memset(&t, 0, sizeof t); t.base.klass = ht_EvTiny_get_event_klass_instance(); t.base.timestamp = 9; t.base.id = id; t.v = id; e.raw.append((char*)&t, sizeof t); e.ser += ref_head(kt, 9, id); put(e.ser, t.v); };
        if (e.kind == D_SMALL || e.kind == D_RAW) tiny(id);
        else if (e.kind == D_PAIR) { tiny(id); tiny(id + 50); }
        else if (e.kind == D_BIG) { Msg m{9, id, (uint32_t)w, (uint32_t)i, std::string(40, 'a' + w)}; e.ser = ref_msg(km, m); }
        ev[w].push_back(e);
    }
    std::vector<Span> stops; struct SF { uint64_t b; size_t content; Bytes snap; }; std::vector<SF> sfs;
    auto work = [&](size_t w)
    {
        for (Ev& e : ev[w])
        {
            e.begin = now();
            if (e.kind <= D_PAIR) { Bytes& b = e.kind == D_RAW ? e.raw : e.ser; ht_file_dump_listener_callback((TEventPtr)b.data(), b.size(), e.kind == D_RAW ? HT_FALSE : HT_TRUE, l); }
            else if (e.kind == FLUSH) ht_file_dump_listener_flush(l, HT_FALSE);
            else if (e.kind == SFLUSH) { if (ht_file_dump_listener_flush(l, HT_TRUE) != HT_ERR_OK) mc_fail("stream flush failed"); size_t n; auto* p = mc_file_data(kPath, &n); e.snap.assign((const char*)p, n); }
            else ht_file_dump_listener_stop(l);
            e.end = now();
        }
    };
    std::vector<std::thread> th; for (size_t w = 1; w < plan.size(); w++) th.emplace_back(work, w);
    work(0); for (auto& t : th) t.join();
    ht_file_dump_listener_destroy(l);
    for (auto& v : ev) for (auto& e : v) { if (e.kind == STOP) stops.push_back({e.begin, e.end}); if (e.kind == SFLUSH) sfs.push_back({e.begin, e.snap.size(), e.snap}); }
    if (mc_file_open(kPath)) mc_fail("the file is still open in the end");
    size_t n; const unsigned char* p = mc_file_data(kPath, &n); Bytes f((const char*)p, n);
    // split: metadata, then deliveries
    RDec r; r.run(f);
    if (!r.error.empty() || r.good != f.size()) mc_fail("file is damaged: %s (%zu of %zu bytes decodable)", r.error.c_str(), r.good, f.size());
    size_t m = 0; for (auto& e : r.events) if (e.meta || e.name == "HT_SystemInfoEvent") { if (e.off != m) mc_fail("metadata and events are mixed"); m = e.off + e.len; }
    auto wm = core_klasses(); auto u = user_klasses(); wm.push_back(u[0]); wm.push_back(u[1]);
    std::string c = compare_meta(read_serialised(f.substr(0, m)), wm, false); if (!c.empty()) mc_fail("metadata: %s", c.c_str());
    std::vector<Ev*> order; std::vector<size_t> at; size_t q = m;
    while (q < f.size())
    {
        Ev* hit = nullptr;
        for (auto& v : ev) for (auto& e : v) if (e.kind <= D_PAIR && f.compare(q, e.ser.size(), e.ser) == 0 && e.ser.size() <= f.size() - q) { bool used = false; for (auto* o : order) used |= o == &e; if (!used) hit = &e; }
        if (!hit) mc_fail("the file contains something that was not delivered, or twice, at offset %zu", q - m);
        order.push_back(hit); q += hit->ser.size(); at.push_back(q);
    }
    for (size_t i = 0; i < order.size(); i++) for (size_t j = 0; j < i; j++) if (order[i]->end < order[j]->begin) mc_fail("deliveries are in the file in the wrong order");
    uint64_t first_stop_begin = ~0ull, first_stop_end = ~0ull; for (auto& s : stops) { if (s.b < first_stop_begin) first_stop_begin = s.b; if (s.e < first_stop_end) first_stop_end = s.e; }
    for (auto& v : ev) for (auto& e : v) if (e.kind <= D_PAIR)
    {
        bool in = false; size_t end = 0; for (size_t i = 0; i < order.size(); i++) if (order[i] == &e) { in = true; end = at[i]; }
        if (!in && e.end < first_stop_begin) mc_fail("a delivery that completed before the stop is missing (thread %d, operation %d)", e.thread, e.idx);
        if (in && e.begin > first_stop_end) mc_fail("a delivery after the stop was accepted");
        for (auto& s : sfs) if (in && e.end < s.b && s.content < end) mc_fail("a stream flush returned while an earlier delivery was not in the file");
    }
    for (auto& s : sfs) if (f.compare(0, s.snap.size(), s.snap) != 0) mc_fail("the file was not a prefix of the final content after a flush");
    Bytes o; for (auto* e : order) { put(o, (char)e->thread); put(o, (char)e->idx); } mc_outcome(o.data(), o.size());
    ht_deinit();
}
static void s_two() { run(50, {{D_SMALL, D_BIG}, {D_BIG, D_SMALL}}); }
static void s_bypass() { run(0, {{D_SMALL, D_BIG}, {D_PAIR, SFLUSH}}); }
static void s_stop() { run(100, {{D_SMALL, D_BIG, D_SMALL}, {D_PAIR, STOP}}); }
static void s_stop2() { run(64, {{D_BIG, STOP}, {D_SMALL, STOP, D_SMALL}}); }
static void s_flush() { run(64, {{D_SMALL, SFLUSH, D_SMALL}, {D_BIG, FLUSH, D_SMALL}}); }
static void s_raw() { run(100, {{D_RAW, D_RAW, SFLUSH}, {D_BIG, D_RAW}}); }
static void s_three() { run(30, {{D_SMALL}, {D_BIG, SFLUSH}, {STOP}}); }
static void s_three_stop() { run(4096, {{D_SMALL, SFLUSH}, {STOP}, {FLUSH, D_PAIR}}); }
static const McScenario sc[] = {
    {"two_deliverers", s_two, 99, 99, 0, 0, 0, 0}, {"unbuffered", s_bypass, 99, 99, 0, 0, 0, 0}, {"stop", s_stop, 99, 99, 0, 0, 0, 0}, {"stop_twice", s_stop2, 99, 99, 0, 0, 0, 0},
    {"flush", s_flush, 99, 99, 0, 0, 0, 0}, {"raw", s_raw, 99, 99, 0, 0, 0, 0}, {"three", s_three, 3, 99, 0, 0, 0, 0}, {"three_stop", s_three_stop, 3, 99, 0, 0, 0, 0},
};
int main(int argc, char** argv) { return mc_conc_main(argc, argv, sc, sizeof sc / sizeof *sc); }
