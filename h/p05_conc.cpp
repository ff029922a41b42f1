// P05: schedules of threads registering classes and reading metadata.
#include "conc.h"
#include "meta.hpp"
#include <hawktracer/registry.h>
#include <hawktracer/timeline_listener.h>
#include <thread>

typedef HT_EventKlassId (*Reg)(void);
static Reg regs[] = {ht_EvTiny_register_event_klass, ht_EvMsg_register_event_klass, ht_EvNums_register_event_klass, ht_EvDerived_register_event_klass, ht_EvDerived2_register_event_klass};
static void cb(TEventPtr e, size_t n, HT_Boolean, void* ud) { ((Bytes*)ud)->append((const char*)e, n); }
static void verify(const Bytes& meta, const std::vector<XKlass>& want, bool more, const char* what) { std::string e = compare_meta(read_serialised(meta), want, more); if (!e.empty()) mc_fail("%s: %s", what, e.c_str()); }
static std::vector<XKlass> must(const std::vector<int>& which, const std::vector<uint32_t>& id) { auto v = core_klasses(); auto u = user_klasses(); for (int w : which) { XKlass x = u[w]; if (!id.empty()) x.id = id[w]; v.push_back(x); } return v; }

// plan: per thread the classes to register (in order); -1 reads the metadata
static void run(std::vector<int> before, std::vector<std::vector<int>> plan, int filler = 0)
{
    ht_init(0, nullptr);
    // bring the registry close to a growth step
    static HT_EventKlass fk[16]; static MKCREFLECT_TypeInfo ft[16]; static char fn[16][8]; static MKCREFLECT_FieldInfo none;
    for (int i = 0; i < filler; i++) { snprintf(fn[i], 8, "F%d", i); ft[i].name = fn[i]; ft[i].fields = &none; fk[i].type_info = &ft[i]; fk[i].klass_id = HT_INVALID_KLASS_ID; ht_registry_register_event_klass(&fk[i]); }
    std::vector<std::vector<HT_EventKlassId>> got(plan.size(), std::vector<HT_EventKlassId>(5, HT_INVALID_KLASS_ID));
    for (int b : before) regs[b]();
    auto work = [&](size_t w)
    {
        std::vector<int> mine = before;
        for (int c : plan[w])
        {
            if (c < 0) { Bytes m; ht_timeline_listener_push_metadata(cb, &m, HT_TRUE); verify(m, must(mine, {}), true, "metadata read meanwhile"); mc_outcome(m.data(), 0); }
            else
            {
                HT_EventKlassId r = regs[c]();
                if (r == HT_INVALID_KLASS_ID) mc_fail("class %d was not registered", c);
                if (got[w][c] != HT_INVALID_KLASS_ID && got[w][c] != r) mc_fail("identifier changed between two registrations");
                got[w][c] = r; mine.push_back(c);
            }
        }
    };
    std::vector<std::thread> th; for (size_t w = 1; w < plan.size(); w++) th.emplace_back(work, w);
    work(0); for (auto& t : th) t.join();
    std::vector<uint32_t> id(5, ~0u); std::vector<int> all;
    for (int c = 0; c < 5; c++)
    {
        for (int b : before) if (b == c) id[c] = regs[c]();
        for (size_t w = 0; w < plan.size(); w++) if (got[w][c] != HT_INVALID_KLASS_ID) { if (id[c] == ~0u) id[c] = got[w][c]; else if (id[c] != got[w][c]) mc_fail("one class got identifiers %u and %u", id[c], got[w][c]); }
        if (id[c] != ~0u) { all.push_back(c); if (regs[c]() != id[c]) mc_fail("registering again later gave another identifier"); for (int o = 0; o < c; o++) if (id[o] == id[c]) mc_fail("two classes share identifier %u", id[c]); }
    }
    mc_outcome(id.data(), id.size() * 4);
    Bytes m; ht_timeline_listener_push_metadata(cb, &m, HT_TRUE);
    auto want = must(all, id); for (int i = 0; i < filler; i++) want.push_back({fn[i], fk[i].klass_id, {}});
    verify(m, want, false, "final metadata");
    ht_deinit();
}
static void s_same() { run({}, {{0, 1}, {1, 0}}); }
static void s_twice() { run({}, {{0, 0}, {0, 0}}); }
static void s_three() { run({}, {{0}, {0}, {1}}); }
static void s_chain() { run({}, {{1, 3, 4}, {4, 3, 1}}); }
static void s_read() { run({0}, {{1, 2}, {-1}}); }
static void s_grow() { run({}, {{0, 2}, {1, 0}}, 7 - 1); }            // 9 core + 6 = 15 of 16
static void s_grow_read() { run({}, {{0, 2}, {-1, 1}}, 6); }
static void s_same3() { run({}, {{0, 1}, {1, 0}, {0, 2}}); }
static const McScenario sc[] = {
    {"same_classes", s_same, 99, 99, 0, 0, 0, 0}, {"same_class_twice", s_twice, 99, 99, 0, 0, 0, 0}, {"three_threads", s_three, 99, 99, 0, 0, 0, 0}, {"inheritance_chain", s_chain, 3, 99, 0, 0, 0, 0},
    {"read_meanwhile", s_read, 2, 4, 0, 0, 0, 0}, {"growing", s_grow, 99, 99, 0, 0, 0, 0}, {"growing_read", s_grow_read, 2, 4, 0, 0, 0, 0}, {"three_overlapping", s_same3, 2, 5, 0, 0, 0, 0},
};
int main(int argc, char** argv) { return mc_conc_main(argc, argv, sc, sizeof sc / sizeof *sc); }
