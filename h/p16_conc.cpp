// P16: feature kinds registered from several threads, every interleaving.
#include "conc.h"
#include "ref.hpp"
#include <hawktracer/feature.h>
#include <hawktracer/registry.h>
#include <thread>

struct Feat { HT_Feature base; };
static void destroy(HT_Feature* f) { int* n = (int*)((char*)f + sizeof(HT_Feature)); ++*n; }
struct Inst { HT_Feature base; int n; };
enum { N = HT_TIMELINE_MAX_FEATURES + 4 };
static HT_FeatureKlass K[N];
static void up(int pre) { for (auto& k : K) { k.destroy = destroy; k.id = HT_INVALID_FEATURE_ID; } ht_init(0, nullptr); for (int i = 0; i < pre; i++) if (ht_registry_register_feature(&K[4 + i]) != HT_ERR_OK) mc_fail("setup: kind %d refused", i); }
// after everybody is done: how many of the first n kinds work on a timeline, each with its own instance; how many kinds fit in all
static void verify(int n, int want_ok, int total_ok)
{
    HT_Timeline* t = ht_timeline_create(0, HT_FALSE, HT_TRUE, nullptr, nullptr); static Inst in[N]; int ok = 0;
    for (int k = 0; k < n; k++) { in[k].base.klass = &K[k]; in[k].n = 0; if (ht_timeline_set_feature(t, &in[k].base) == HT_ERR_OK) ok++; else if (in[k].n != 1) mc_fail("refused instance released %d times", in[k].n); else in[k].n = -5; }
    for (int k = 0; k < n; k++) { HT_Feature* f = ht_timeline_get_feature(t, &K[k]); if (in[k].n == 0 && f != &in[k].base) mc_fail("kind %d yields another instance", k); if (in[k].n == -5 && f) mc_fail("refused kind %d yields an instance", k); }
    if (ok != want_ok) mc_fail("%d kinds can be enabled, %d were registered", ok, want_ok);
    ht_timeline_destroy(t);
    for (int k = 0; k < n; k++) if (in[k].n != 1 && in[k].n != -5) mc_fail("instance of kind %d released %d times", k, in[k].n);
    int more = 0; for (int k = n; k < N; k++) if (K[k].id == HT_INVALID_FEATURE_ID && ht_registry_register_feature(&K[k]) == HT_ERR_OK) more++;
    if (more != total_ok) mc_fail("%d further kinds could be registered, expected %d", more, total_ok);
}
static int nok(std::initializer_list<HT_ErrorCode> l) { int n = 0; for (auto e : l) n += e == HT_ERR_OK; Bytes o; for (auto e : l) put(o, e); mc_outcome(o.data(), o.size()); return n; }
static void same(int third)
{
    up(0); HT_ErrorCode a, b, c = HT_ERR_FEATURE_ALREADY_REGISTERED; std::thread x([&] { b = ht_registry_register_feature(&K[0]); }), *y = third ? new std::thread([&] { c = ht_registry_register_feature(&K[0]); }) : nullptr;
    a = ht_registry_register_feature(&K[0]); uint32_t id = K[0].id; x.join(); if (y) y->join();
    if (nok({a, b, c}) != 1) mc_fail("a kind was registered %d times", nok({a, b, c})); for (auto e : {a, b, c}) if (e != HT_ERR_OK && e != HT_ERR_FEATURE_ALREADY_REGISTERED) mc_fail("unexpected error %d", e);
    if (id != K[0].id) mc_fail("registering again changed the slot"); verify(1, 1, HT_TIMELINE_MAX_FEATURES - 3);
}
static void s_same() { same(0); }
static void s_same3() { same(1); }
static void s_different() { up(0); HT_ErrorCode a, b; std::thread x([&] { b = ht_registry_register_feature(&K[1]); }); a = ht_registry_register_feature(&K[0]); x.join(); if (nok({a, b}) != 2) mc_fail("a kind was refused"); verify(2, 2, HT_TIMELINE_MAX_FEATURES - 4); }
static void s_last_slot() { up(HT_TIMELINE_MAX_FEATURES - 3); HT_ErrorCode a, b; std::thread x([&] { b = ht_registry_register_feature(&K[1]); }); a = ht_registry_register_feature(&K[0]); x.join(); if (nok({a, b}) != 1) mc_fail("%d kinds got the last slot", nok({a, b})); if (a != HT_ERR_OK && a != HT_ERR_MAX_FEATURE_COUNT_REACHED) mc_fail("unexpected error"); verify(2, 1, 0); }
static void s_crossed() { up(0); HT_ErrorCode a, b, c, d; std::thread x([&] { b = ht_registry_register_feature(&K[1]); d = ht_registry_register_feature(&K[0]); }); a = ht_registry_register_feature(&K[0]); c = ht_registry_register_feature(&K[1]); x.join(); if (nok({a, b, c, d}) != 2 || (a == HT_ERR_OK) == (d == HT_ERR_OK)) mc_fail("two kinds were registered %d times", nok({a, b, c, d})); verify(2, 2, HT_TIMELINE_MAX_FEATURES - 4); }
// enabling on separate timelines while another kind is registered
static void s_enable() { up(1); static Inst i0, i1; i0.base.klass = i1.base.klass = &K[4]; HT_ErrorCode a, b, c; std::thread x([&] { HT_Timeline* t = ht_timeline_create(0, HT_FALSE, HT_TRUE, nullptr, nullptr); b = ht_timeline_set_feature(t, &i1.base); c = ht_registry_register_feature(&K[0]); if (ht_timeline_get_feature(t, &K[4]) != &i1.base) mc_fail("another instance"); ht_timeline_destroy(t); }); HT_Timeline* t = ht_timeline_create(0, HT_FALSE, HT_TRUE, nullptr, nullptr); a = ht_timeline_set_feature(t, &i0.base); HT_ErrorCode d = ht_registry_register_feature(&K[1]); if (ht_timeline_get_feature(t, &K[4]) != &i0.base) mc_fail("another instance"); ht_timeline_destroy(t); x.join(); if (nok({a, b, c, d}) != 4 || i0.n != 1 || i1.n != 1) mc_fail("released %d and %d times", i0.n, i1.n); }
static const McScenario sc[] = {{"same", s_same, 99, 99, 0, 0, 0, 0}, {"same_three", s_same3, 99, 99, 0, 0, 0, 0}, {"different", s_different, 99, 99, 0, 0, 0, 0}, {"last_slot", s_last_slot, 99, 99, 0, 0, 0, 0}, {"crossed", s_crossed, 99, 99, 0, 0, 0, 0}, {"enable", s_enable, 3, 99, 0, 0, 0, 0}};
int main(int argc, char** argv) { return mc_conc_main(argc, argv, sc, sizeof sc / sizeof *sc); }
