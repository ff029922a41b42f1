// P14: sequences of string mappings against a reference dictionary.
#include "seq.hpp"
#include "ref.hpp"
#include <hawktracer/feature_cached_string.h>
#include <map>
#include <set>
#include <deque>
#include <sys/mman.h>

struct Ev { uint64_t id; std::string label; };
static std::deque<Ev> got; static std::string g_err;
static void cb(TEventPtr ev, size_t n, HT_Boolean ser, void*)
{
    Bytes b((const char*)ev, n); size_t p = 0; HT_EventKlass* km = ht_HT_StringMappingEvent_get_event_klass_instance();
    while (p < b.size())
    {
        if (ser) { size_t q = b.find('\0', p + 28); if (q == Bytes::npos || get32(b, p) != km->klass_id) { g_err = "broken mapping event"; return; } got.push_back({get64(b, p + 20), b.substr(p + 28, q - p - 28)}); p = q + 1; }
        else { HT_StringMappingEvent* e = (HT_StringMappingEvent*)(b.data() + p); if (e->base.klass != km) { g_err = "broken mapping event"; return; } got.push_back({e->identifier, e->label}); p += sizeof *e; }
    }
}
// a static string that lives at the address which is the hash of another (dynamic) label
static uint32_t ref_hash(const char* s) { uint32_t h = 5381; while (*s) h = h * 33 + (unsigned)(signed char)*s++; return h; }
static const char* g_low; static std::string g_low_twin;
static void low_init()
{
    for (int k = 0; k < 4000 && !g_low; k++)
    {
        std::string s = "label" + std::to_string(k); uint32_t h = ref_hash(s.c_str());
        if (h < 0x100000 || h > 0x30000000 || (h & 4095) > 4000) continue;
        void* pg = mmap((void*)(uintptr_t)(h & ~4095u), 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
        if (pg != (void*)(uintptr_t)(h & ~4095u)) { if (pg != MAP_FAILED) munmap(pg, 4096); continue; }
        char* c = (char*)(uintptr_t)h; strcpy(c, "low static"); g_low = c; g_low_twin = s;
    }
}
static void once() { static bool d = false; if (!d) { d = true; ht_init(0, nullptr); low_init(); } got.clear(); g_err.clear(); }
static const char s0[] = "ab", s1[] = "static one", s2[] = "tail of this", s3[] = "";
struct Model
{
    HT_Timeline* t; bool direct;
    std::map<std::pair<int, std::string>, uint64_t> dyn; std::map<const char*, uint64_t> sta; std::map<uint64_t, std::string> ids; std::vector<Ev> order;
    void settle(bool all)
    {
        SEQ_CHECK(g_err.empty(), "%s", g_err.c_str());
        while (!got.empty())
        {
            SEQ_CHECK(!order.empty(), "a mapping event (%llu, '%s') nobody asked for", (unsigned long long)got[0].id, got[0].label.c_str());
            SEQ_CHECK(got[0].id == order[0].id && got[0].label == order[0].label, "mapping event (%llu, '%s') instead of (%llu, '%s')", (unsigned long long)got[0].id, got[0].label.c_str(), (unsigned long long)order[0].id, order[0].label.c_str());
            got.pop_front(); order.erase(order.begin());
        }
        if (all) SEQ_CHECK(order.empty(), "no mapping event for (%llu, '%s')", (unsigned long long)order[0].id, order[0].label.c_str());
    }
    void asked(bool fresh, uint64_t before, uint64_t id, const std::string& label)
    {
        if (!fresh) SEQ_CHECK(id == before, "the same string '%s' got identifier %llu, then %llu", label.c_str(), (unsigned long long)before, (unsigned long long)id);
        else
        {
            auto it = ids.find(id);
            if (it != ids.end()) SEQ_CHECK(it->second == label, "strings '%s' and '%s' share identifier %llu", it->second.c_str(), label.c_str(), (unsigned long long)id);
            else { ids[id] = label; order.push_back({id, label}); }
        }
        if (direct) settle(true);
    }
    void dynamic(const std::string& label)
    {
        std::vector<char> tmp(label.begin(), label.end()); tmp.push_back(0);
        uint64_t id = ht_feature_cached_string_add_mapping_dynamic(t, tmp.data());
        memset(tmp.data(), '#', tmp.size());                      // the caller's storage is reused at once
        auto k = std::make_pair(0, label); bool fresh = !dyn.count(k); uint64_t b = fresh ? 0 : dyn[k]; if (fresh) dyn[k] = id;
        asked(fresh, b, id, label);
    }
    void fixed(const char* p) { uint64_t id = ht_feature_cached_string_add_mapping(t, p); bool fresh = !sta.count(p); uint64_t b = fresh ? 0 : sta[p]; if (fresh) sta[p] = id; asked(fresh, b, id, p); }
    void push_map()
    {
        ht_timeline_flush(t); settle(true); ht_feature_cached_string_push_map(t); ht_timeline_flush(t); SEQ_CHECK(g_err.empty(), "%s", g_err.c_str());
        std::map<uint64_t, std::string> seen;
        for (auto& e : got) { SEQ_CHECK(!seen.count(e.id), "re-pushing the map emitted identifier %llu twice", (unsigned long long)e.id); seen[e.id] = e.label; }
        for (auto& m : ids) { SEQ_CHECK(seen.count(m.first), "re-pushing the map left out '%s'", m.second.c_str()); SEQ_CHECK(seen[m.first] == m.second, "re-pushing the map emitted '%s' for '%s'", seen[m.first].c_str(), m.second.c_str()); }
        SEQ_CHECK(seen.size() == ids.size(), "re-pushing the map emitted %zu mappings, %zu are known", seen.size(), ids.size()); got.clear();
    }
};
static HT_Timeline* mk(size_t cap, bool ser, bool safe) { HT_Timeline* t = ht_timeline_create(cap, safe, ser, nullptr, nullptr); SEQ_CHECK(t && ht_feature_cached_string_enable(t, safe) == HT_ERR_OK, "not created"); ht_timeline_register_listener(t, cb, nullptr); return t; }
static void s_sequences()
{
    once(); static const size_t caps[] = {0, 90, 4096}; size_t cap = caps[seq::choose(3)]; bool ser = seq::choose(2) == 0, safe = seq::choose(2);
    Model m; m.direct = cap == 0; m.t = mk(cap, ser, safe); seq::note("capacity %zu %s:", cap, ser ? "serialised" : "raw");
    static const std::string dyn[] = {"ab", "bA", "ac", "bB", "", "a longer label with some text in it, longer than the others by far"}; const char* sta[] = {s0, s1, s1 + 7, s2};
    int depth = seq::thorough() ? 5 : 4;
    for (int i = 0; i < depth; i++)
    {
        int o = seq::choose(14); if (o == 0) break;
        if (o <= 6) { m.dynamic(dyn[o - 1]); seq::note(" dyn('%.6s')", dyn[o - 1].c_str()); } else if (o <= 10) { m.fixed(sta[o - 7]); seq::note(" static('%s')", sta[o - 7]); }
        else if (o == 11) { m.push_map(); seq::note(" push_map"); } else if (o == 12) { if (!g_low) { seq::discard(); break; } m.fixed(g_low); seq::note(" static-at-hash-address"); } else { if (!g_low) { seq::discard(); break; } m.dynamic(g_low_twin); seq::note(" dyn('%s')", g_low_twin.c_str()); }
        seq::step(); Bytes s; for (auto& x : m.ids) { s += x.second; s += '\0'; } put(s, cap); seq::state(s);
    }
    m.push_map(); Bytes o; for (auto& x : m.ids) o += x.second + ","; seq::outcome(o);
    ht_timeline_destroy(m.t); SEQ_CHECK(got.empty(), "events on destruction");
}
// families of 2^k labels with one hash, and n labels spread over all buckets
static void s_many()
{
    once(); int fam = seq::choose(3), n = 1 + seq::choose(seq::thorough() ? 600 : 260); bool twice = seq::choose(2); if (fam == 0 && n > 256) { seq::discard(); return; }
    Model m; m.direct = true; m.t = mk(0, true, false); static std::vector<std::string>* pool = new std::vector<std::string>;
    if (pool->empty()) for (int i = 0; i < 700; i++) pool->push_back("some static label " + std::to_string(i));
    auto name = [&](int i) { if (fam == 1) return "label " + std::to_string(i); std::string s; for (int b = 0; b < 8; b++) s += i >> b & 1 ? "ab" : "bA"; return s; };
    for (int r = 0; r < (twice ? 2 : 1); r++) for (int i = 0; i < n; i++) { if (fam == 2) m.fixed((*pool)[i].c_str()); else m.dynamic(name(i)); }
    m.push_map(); m.push_map(); seq::step(); seq::note("%d labels of family %d", n, fam); Bytes o; put(o, n); put(o, fam); seq::outcome(o); ht_timeline_destroy(m.t);
}
// every string length, and every single byte value
static void s_lengths()
{
    once(); int n = seq::choose(seq::thorough() ? 1200 : 400); std::string s; for (int i = 0; i < n; i++) s += (char)(1 + (i * 7 + n) % 255);
    Model m; m.direct = false; m.t = mk(seq::choose(2) * 300, true, false); m.dynamic(s); m.dynamic(s + "x"); if (n < 256 && n) m.dynamic(std::string(1, (char)n)); m.dynamic(s);
    m.push_map(); seq::step(); Bytes o; put(o, n); seq::outcome(o); ht_timeline_destroy(m.t);
}
// two timelines keep their own mappings
static void s_two()
{
    once(); Model m[2]; for (auto& x : m) { x.direct = true; x.t = mk(0, true, false); } static const std::string dyn[] = {"ab", "bA", "zz"};
    for (int i = 0; i < (seq::thorough() ? 6 : 5); i++) { int w = seq::choose(2), o = seq::choose(6); if (!o) break; if (o <= 3) m[w].dynamic(dyn[o - 1]); else if (o == 4) m[w].fixed(s0); else m[w].push_map(); seq::step(); }
    for (auto& x : m) { x.push_map(); Bytes o; for (auto& y : x.ids) o += y.second + ","; seq::outcome(o); ht_timeline_destroy(x.t); }
}
static const seq::Scenario sc[] = {{"sequences", s_sequences, 0, false}, {"many", s_many, 0, false}, {"lengths", s_lengths, 0, false}, {"two_timelines", s_two, 0, false}};
int main(int argc, char** argv) { return seq::main(argc, argv, sc, 4); }
