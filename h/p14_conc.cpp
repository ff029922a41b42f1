// P14: string mappings from several threads, every interleaving.
#include "conc.h"
#include "ref.hpp"
#include <hawktracer/feature_cached_string.h>
#include <thread>
#include <map>

static void cb(TEventPtr e, size_t n, HT_Boolean, void*) { mc_log(100, e, n); }
static HT_Timeline* T;
static void up(size_t cap = 0) { ht_init(0, nullptr); T = ht_timeline_create(cap, HT_TRUE, HT_TRUE, nullptr, nullptr); if (!T || ht_feature_cached_string_enable(T, HT_TRUE) != HT_ERR_OK) mc_fail("setup"); ht_timeline_register_listener(T, cb, nullptr); }
struct Ev { int tid; uint64_t id; std::string label; size_t at; };
static std::vector<Ev> events(size_t upto = ~0ul)
{
    std::vector<Ev> r; uint32_t km = ht_HT_StringMappingEvent_get_event_klass_instance()->klass_id;
    for (size_t i = 0; i < mc_log_count() && i < upto; i++)
    {
        McLogEntry l = mc_log_get(i); if (l.kind != 100) continue;
        Bytes b((const char*)l.data, l.size); size_t p = 0;
        while (p < b.size()) { size_t q = b.find('\0', p + 28); if (q == Bytes::npos || get32(b, p) != km) mc_fail("broken mapping event"); r.push_back({l.tid, get64(b, p + 20), b.substr(p + 28, q - p - 28), i}); p = q + 1; }
    }
    return r;
}
struct Use { std::string label; uint64_t id; size_t at; };
static Use ask(const char* label, bool dyn) { uint64_t id = dyn ? ht_feature_cached_string_add_mapping_dynamic(T, label) : ht_feature_cached_string_add_mapping(T, label); mc_log(200, &id, 8); return {label, id, mc_log_count()}; }
static void verify(const std::vector<Use>& uses, bool direct = true)
{
    auto ev = events(); std::map<uint64_t, std::string> m; std::map<std::string, uint64_t> ids; Bytes o;
    for (auto& e : ev) { if (m.count(e.id)) mc_fail("identifier of '%s' was announced twice", e.label.c_str()); m[e.id] = e.label; o += e.label + ","; put(o, e.tid); }
    for (auto& u : uses)
    {
        if (!m.count(u.id)) mc_fail("no mapping event for '%s'", u.label.c_str());
        if (m[u.id] != u.label) mc_fail("'%s' got the identifier of '%s'", u.label.c_str(), m[u.id].c_str());
        if (ids.count(u.label) && ids[u.label] != u.id) mc_fail("'%s' has two identifiers", u.label.c_str());
        ids[u.label] = u.id;
        if (direct) { bool before = false; for (auto& e : ev) before = before || (e.id == u.id && e.at < u.at); if (!before) mc_fail("the identifier of '%s' was returned before its mapping event reached the timeline", u.label.c_str()); }
    }
    if (m.size() != ids.size()) mc_fail("%zu mapping events, %zu strings", m.size(), ids.size());
    mc_outcome(o.data(), o.size());
}
static std::vector<Use> ua, ub, uc;   // each filled by one thread only
static std::vector<Use> all() { std::vector<Use> v = ua; v.insert(v.end(), ub.begin(), ub.end()); v.insert(v.end(), uc.begin(), uc.end()); return v; }
static void two(const char* a1, const char* a2, const char* b1, const char* b2, bool dyn, size_t cap = 0)
{
    up(cap); size_t live = mc_heap_live(); (void)live;
    std::thread b([&] { ub.push_back(ask(b1, dyn)); if (b2) ub.push_back(ask(b2, dyn)); });
    ua.push_back(ask(a1, dyn)); if (a2) ua.push_back(ask(a2, dyn));
    b.join(); if (cap) ht_timeline_flush(T);
    verify(all(), cap == 0); ht_timeline_destroy(T);
}
static void s_dyn_same() { two("ab", nullptr, "ab", nullptr, true); }
static void s_dyn_same2() { two("ab", "cd", "ab", "cd", true); }
static void s_dyn_collide() { two("ab", "ac", "bA", "ab", true); }
static const char g1[] = "one", g2[] = "two";
static void s_static_same() { two(g1, g2, g1, g2, false); }
static void s_static_cross() { two(g1, g2, g2, g1, false); }
static void s_buffered() { two("ab", "cd", "cd", "ab", true, 60); }
static void s_mixed() { up(); std::thread b([] { ub.push_back(ask("one", true)); }); uint64_t id = ht_feature_cached_string_add_mapping(T, g1); b.join(); std::map<uint64_t, std::string> m; for (auto& e : events()) { if (m.count(e.id)) mc_fail("identifier announced twice"); m[e.id] = e.label; } if (m[id] != "one" || m[ub[0].id] != "one") mc_fail("mapping missing"); Bytes o; for (auto& e : events()) put(o, e.tid); mc_outcome(o.data(), o.size()); ht_timeline_destroy(T); }
static void s_three() { up(); std::thread b([] { ub.push_back(ask("ab", true)); }), c([] { uc.push_back(ask("bA", true)); }); ua.push_back(ask("ab", true)); b.join(); c.join(); verify(all()); ht_timeline_destroy(T); }
// re-pushing the map while mappings are added
static void s_push_map()
{
    up(); ua.push_back(ask("old", true)); ua.push_back(ask(g1, false)); size_t b0 = 0, b1 = 0; int pusher = -1;
    std::thread p([&] { pusher = mc_tid(); mc_log(1, "", 0); b0 = mc_log_count(); ht_feature_cached_string_push_map(T); b1 = mc_log_count(); });
    ua.push_back(ask("ab", true)); ua.push_back(ask(g2, false)); ua.push_back(ask("bA", true));
    p.join();
    std::map<uint64_t, int> own, again; std::map<uint64_t, std::string> label;
    for (auto& e : events()) { (e.tid == pusher ? again : own)[e.id]++; if (label.count(e.id) && label[e.id] != e.label) mc_fail("an identifier was announced with two labels"); label[e.id] = e.label; }
    Bytes o; put(o, again.size()); mc_outcome(o.data(), o.size());
    for (auto& u : ua)
    {
        if (own[u.id] != 1) mc_fail("mapping of '%s' announced %d times by its caller", u.label.c_str(), own[u.id]);
        if (label[u.id] != u.label) mc_fail("wrong label for '%s'", u.label.c_str());
        if (again[u.id] > 1) mc_fail("re-pushing announced '%s' twice", u.label.c_str());
        if (u.at <= b0 && again[u.id] != 1) mc_fail("re-pushing left out '%s', known before", u.label.c_str());
    }
    ht_timeline_destroy(T);
}
static const McScenario sc[] = {
    {"dyn_same", s_dyn_same, 99, 99, 0, 0, 0, 0}, {"dyn_same_two", s_dyn_same2, 99, 99, 0, 0, 0, 0}, {"dyn_colliding", s_dyn_collide, 99, 99, 0, 0, 0, 0},
    {"static_same", s_static_same, 99, 99, 0, 0, 0, 0}, {"static_crossed", s_static_cross, 99, 99, 0, 0, 0, 0}, {"buffered", s_buffered, 99, 99, 0, 0, 0, 0}, {"mixed", s_mixed, 99, 99, 0, 0, 0, 0},
    {"three", s_three, 3, 99, 0, 0, 0, 0}, {"push_map", s_push_map, 3, 99, 0, 0, 0, 0}};
int main(int argc, char** argv) { return mc_conc_main(argc, argv, sc, sizeof sc / sizeof *sc); }
