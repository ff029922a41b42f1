// P16: registration of feature kinds and enabling them on timelines. Registration is final in a process, so executions are isolated.
#include "seq.hpp"
#include "ref.hpp"
#include <hawktracer/feature.h>
#include <hawktracer/registry.h>
#include <hawktracer/feature_callstack.h>
#include <hawktracer/feature_cached_string.h>
#include <map>
#include <set>

struct Feat { HT_Feature base; int serial; };
static std::map<int, int> destroyed; static int nserial;
static void destroy(HT_Feature* f) { destroyed[((Feat*)f)->serial]++; delete (Feat*)f; }
enum { N = HT_TIMELINE_MAX_FEATURES + 4 };
static HT_FeatureKlass K[N];
static bool registered[N]; static int nreg;
struct TL { HT_Timeline* t; std::map<int, int> have; std::map<int, HT_Feature*> ptr; bool live = true; };
static std::vector<TL> tls;
static void init(int core) { for (auto& k : K) { k.destroy = destroy; k.id = HT_INVALID_FEATURE_ID; } ht_init(0, nullptr); nreg = core; }
static void reg(int k)
{
    HT_ErrorCode e = ht_registry_register_feature(&K[k]);
    if (registered[k]) SEQ_CHECK(e == HT_ERR_FEATURE_ALREADY_REGISTERED, "registering a kind again returned %d", e);
    else if (nreg == HT_TIMELINE_MAX_FEATURES) SEQ_CHECK(e == HT_ERR_MAX_FEATURE_COUNT_REACHED, "kind number %d was accepted (error %d)", nreg + 1, e);
    else { SEQ_CHECK(e == HT_ERR_OK, "kind number %d of %d was refused with %d", nreg + 1, HT_TIMELINE_MAX_FEATURES, e); registered[k] = true; nreg++; }
    seq::step();
}
static void look()
{
    for (auto& x : tls) if (x.live) for (int k = 0; k < N; k++)
    {
        HT_Feature* f = ht_timeline_get_feature(x.t, &K[k]);
        if (!x.have.count(k)) SEQ_CHECK(f == nullptr, "lookup of a kind that is %s returned something", registered[k] ? "not enabled" : "not registered");
        else SEQ_CHECK(f == x.ptr[k], "lookup returned another instance than the enabled one");
    }
}
static void enable(TL& x, int k)
{
    Feat* f = new Feat{{&K[k]}, nserial++}; int s = f->serial; HT_ErrorCode e = ht_timeline_set_feature(x.t, (HT_Feature*)f);
    if (!registered[k]) SEQ_CHECK(e == HT_ERR_FEATURE_NOT_REGISTERED, "enabling an unregistered kind returned %d", e);
    else if (x.have.count(k)) SEQ_CHECK(e == HT_ERR_FEATURE_ALREADY_REGISTERED, "enabling a kind twice returned %d", e);
    else { SEQ_CHECK(e == HT_ERR_OK, "enabling a registered kind returned %d", e); x.have[k] = s; x.ptr[k] = (HT_Feature*)f; }
    SEQ_CHECK(destroyed[s] == (e != HT_ERR_OK), "a %s instance was released %d times", e ? "refused" : "accepted", destroyed[s]); seq::step();
}
static void kill(TL& x) { ht_timeline_destroy(x.t); x.live = false; for (auto& h : x.have) SEQ_CHECK(destroyed[h.second] == 1, "an enabled instance was released %d times when its timeline was destroyed", destroyed[h.second]); }
static void check_alive() { for (auto& x : tls) if (x.live) for (auto& h : x.have) SEQ_CHECK(destroyed[h.second] == 0, "an enabled instance was released while its timeline lives"); std::set<uint32_t> ids; for (int k = 0; k < N; k++) if (registered[k]) SEQ_CHECK(ids.insert(K[k].id).second, "two kinds share slot %u", K[k].id); }
static void mk() { HT_Timeline* t = ht_timeline_create(seq::choose(2) * 100, HT_FALSE, HT_TRUE, nullptr, nullptr); SEQ_CHECK(t, "no timeline"); tls.push_back({t}); }
static void finish() { for (auto& x : tls) if (x.live) { kill(x); check_alive(); } for (int s = 0; s < nserial; s++) SEQ_CHECK(destroyed[s] == 1, "instance %d was released %d times in the end", s, destroyed[s]); }
static void s_histories()
{
    init(2); int pre = seq::choose(4); static const int PRE[] = {0, 1, HT_TIMELINE_MAX_FEATURES - 4, HT_TIMELINE_MAX_FEATURES - 2}; for (int i = 0; i < PRE[pre]; i++) reg(3 + i);
    mk(); tls.push_back({ht_timeline_create(0, HT_TRUE, HT_FALSE, nullptr, nullptr)}); seq::note("%d kinds before:", nreg);
    for (int i = 0; i < (seq::thorough() ? 5 : 4); i++)
    {
        int o = seq::choose(11); if (!o) break; int k = (o - 1) % 3;
        if (o <= 3) { reg(k); seq::note(" register%d", k); } else if (o <= 9) { TL& x = tls[o > 6]; if (!x.live) break; enable(x, k); seq::note(" t%d.enable%d", o > 6, k); } else { if (!tls[0].live) break; kill(tls[0]); seq::note(" destroy-t0"); }
        check_alive(); look(); Bytes s; for (int j = 0; j < 3; j++) { put(s, registered[j]); for (auto& x : tls) put(s, x.have.count(j)); } put(s, nreg); put(s, tls[0].live); seq::state(s); seq::outcome(s);
    }
    finish();
}
// every number of kinds up to and beyond the maximum, all enabled on up to three timelines
static void s_limit()
{
    int n = seq::choose(N + 1), nt = 1 + seq::choose(3), order = seq::choose(3); init(2);
    for (int i = 0; i < n; i++) reg(order == 0 ? i : order == 1 ? n - 1 - i : (i * 5) % N); if (order == 2 && n > 1) for (int i = 0; i < n; i++) reg((i * 5) % N);
    for (int t = 0; t < nt; t++) { mk(); for (int k = 0; k < N; k++) { if ((k + t) % 3 || nt == 1) enable(tls.back(), k); } look(); check_alive(); }
    if (nt == 3) { kill(tls[1]); look(); check_alive(); } finish(); Bytes o; put(o, n); put(o, nt); put(o, order); seq::outcome(o); seq::note("%d kinds, %d timelines", n, nt);
}
// the built-in features obey the same rules and keep working; a later initialised period too
static int ncb; static void cb(TEventPtr, size_t, HT_Boolean, void*) { ncb++; }
static void s_builtin()
{
    init(2); int cycles = seq::choose(3); for (int i = 0; i < cycles; i++) { ht_deinit(); ht_init(0, nullptr); } if (seq::choose(2)) ht_init(0, nullptr);
    mk(); HT_Timeline* t = tls[0].t; ht_timeline_register_listener(t, cb, nullptr); int order = seq::choose(2);
    for (int r = 0; r < 3; r++) for (int q = 0; q < 2; q++)
    {
        HT_ErrorCode e = (q == order) ? ht_feature_callstack_enable(t) : ht_feature_cached_string_enable(t, r % 2); SEQ_CHECK(e == (r ? HT_ERR_FEATURE_ALREADY_REGISTERED : HT_ERR_OK), "enabling a built-in feature (%d. time) returned %d", r + 1, e); seq::step();
        if (q == order) ht_feature_callstack_start_int(t, r + 5);
    }
    uintptr_t a = ht_feature_cached_string_add_mapping_dynamic(t, "x"), b = ht_feature_cached_string_add_mapping_dynamic(t, "x"); SEQ_CHECK(a == b, "string feature lost its state");
    for (int i = 0; i < 3; i++) ht_feature_callstack_stop(t); ht_timeline_flush(t); SEQ_CHECK(ncb > 0, "nothing delivered");
    for (int k = 0; k < N; k++) reg(k); for (int k = 0; k < N; k++) enable(tls[0], k); look(); finish(); Bytes o; put(o, cycles); put(o, order); seq::outcome(o);
}
static const seq::Scenario sc[] = {{"histories", s_histories, 0, true}, {"limit", s_limit, 0, true}, {"builtin", s_builtin, 0, true}};
int main(int argc, char** argv) { return seq::main(argc, argv, sc, 3); }
