// P17: every allocation failure point of every creating call, in the presence of existing objects.
#include "seq.hpp"
#include "meta.hpp"
#include "failalloc.hpp"
#include <hawktracer/feature_callstack.h>
#include <hawktracer/feature_cached_string.h>
#include <hawktracer/task_scheduler.h>
#include <hawktracer/global_timeline.h>
#include <hawktracer/registry.h>
#include <hawktracer/timeline_listener.h>
#include <hawktracer/listeners/file_dump_listener.h>
#include <hawktracer/cpu_usage.h>
#include <hawktracer/memory_usage.h>
#include <dirent.h>
#include <memory>
#include <sanitizer/allocator_interface.h>
#include <thread>

static FailAlloc* A;
static std::vector<Bytes> L0; static int l_destroyed;
static void cb0(TEventPtr e, size_t n, HT_Boolean, void*) { L0.push_back(Bytes((const char*)e, n)); }
static void cbx(TEventPtr, size_t, HT_Boolean, void* ud) { ++*(int*)ud; }
static void dcb(void* ud) { ++*(int*)ud; }
static HT_Boolean task_cb(void* ud) { ++*(int*)ud; return HT_TRUE; }
static int fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static void chk() { SEQ_CHECK(!A->error, "%s", A->error); }
// what exists before the failing call, and must work after it
struct World
{
    HT_Timeline* t; HT_TaskScheduler* s; int ran = 0, seq = 0, nfds; uintptr_t id; HT_TaskId tid;
    World()
    {
        A = new FailAlloc; L0.clear(); nfds = fds(); ht_allocator_set(FailAlloc::fn, A); ht_init(0, nullptr); ht_EvTiny_register_event_klass();
        HT_ErrorCode e; t = ht_timeline_create(64, HT_TRUE, HT_TRUE, "set", &e); SEQ_CHECK(t && e == HT_ERR_OK, "setup"); ht_timeline_register_listener(t, cb0, nullptr);
        SEQ_CHECK(ht_feature_callstack_enable(t) == HT_ERR_OK && ht_feature_cached_string_enable(t, HT_TRUE) == HT_ERR_OK, "setup");
        id = ht_feature_cached_string_add_mapping_dynamic(t, "first"); s = ht_task_scheduler_create(&e); tid = ht_task_scheduler_schedule_task(s, HT_TASK_SCHEDULING_RESTART_TIMER, 0, task_cb, &ran); chk();
    }
    void works(const char* when)
    {
        chk(); ht_timeline_flush(t); L0.clear(); HT_TIMELINE_PUSH_EVENT(t, EvTiny, 7); ht_timeline_flush(t);
        SEQ_CHECK(L0.size() == 1 && L0[0].size() == 21 && L0[0][20] == 7, "%s: an existing timeline does not deliver any more", when);
        SEQ_CHECK(ht_feature_cached_string_add_mapping_dynamic(t, "first") == id, "%s: an existing mapping is lost", when); ht_timeline_flush(t); SEQ_CHECK(L0.size() == 1, "%s: an existing mapping was announced again", when);
        ht_feature_callstack_start_int(t, 5); ht_feature_callstack_stop(t); ht_timeline_flush(t); SEQ_CHECK(L0.size() == 2, "%s: tracepoints do not work any more", when);
        int r = ran; ht_task_scheduler_tick(s); SEQ_CHECK(ran == r + 1, "%s: an existing task does not run any more", when); chk(); seq::step();
    }
    void end()
    {
        works("before shutdown"); ht_timeline_destroy(t); SEQ_CHECK(ht_task_scheduler_remove_task(s, tid), "an existing task is lost"); ht_task_scheduler_destroy(s); ht_deinit(); chk();
        SEQ_CHECK(A->live.empty(), "%zu blocks of the user's allocator were never returned (sizes %zu...)", A->live.size(), A->live.begin()->second);
        SEQ_CHECK(fds() == nfds, "%d files were left open", fds() - nfds);
        ht_allocator_set(nullptr, nullptr); delete A;
        }
};
// arms the allocator for the next call: every single failing request, and failing from that request on
static void arm(int lim) { bool p = seq::choose(2); int at = seq::choose(lim); seq::note("%s request %d fails:", p ? "from" : "only", at); A->arm(at, p); }
static bool fired() { A->disarm(); bool f = A->fired; seq::note(f ? " reached" : " not reached"); Bytes o; put(o, f); put(o, A->count); seq::outcome(o); chk(); return f; }
static void s_timeline()
{
    World w; int name = seq::choose(3); size_t cap = seq::choose(3) * 50; bool safe = seq::choose(2), ser = seq::choose(2); const char* n = name == 0 ? nullptr : name == 1 ? "set" : "new set"; seq::note("create timeline '%s': ", n ? n : "");
    HT_ErrorCode e = HT_ERR_UNKNOWN; arm(14); HT_Timeline* t = ht_timeline_create(cap, safe, ser, n, &e); bool f = fired();
    SEQ_CHECK((t != nullptr) == (e == HT_ERR_OK), "creation returned %s with error code %d", t ? "a timeline" : "nothing", e); if (!f) SEQ_CHECK(t, "creation failed with %d without a failing request (capacity %zu)", e, cap);
    w.works("after creating a timeline"); if (t) ht_timeline_destroy(t);
    e = HT_ERR_UNKNOWN; t = ht_timeline_create(cap, safe, ser, n, &e); SEQ_CHECK(t && e == HT_ERR_OK, "second attempt failed with %d", e);
    int got = 0, d = 0; SEQ_CHECK(ht_timeline_register_listener_full(t, cbx, &got, nullptr) == HT_ERR_OK, "listener refused"); HT_TIMELINE_PUSH_EVENT(t, EvTiny, 1); ht_timeline_flush(t); SEQ_CHECK(got == 1, "the new timeline does not deliver");
    L0.clear(); HT_TIMELINE_PUSH_EVENT(w.t, EvTiny, 1); ht_timeline_flush(w.t); SEQ_CHECK(L0.size() == 1 && got == (name == 1 ? 2 : 1), "listener sets are mixed up"); (void)d;
    HT_Timeline* u = name == 2 ? ht_timeline_create(0, HT_FALSE, ser, n, &e) : nullptr; if (u) { HT_TIMELINE_PUSH_EVENT(u, EvTiny, 1); SEQ_CHECK(got == 2, "the set is not shared"); ht_timeline_destroy(u); }
    ht_timeline_destroy(t); if (name == 1) ht_timeline_unregister_all_listeners(w.t), ht_timeline_register_listener(w.t, cb0, nullptr); w.end();
}
static void s_sets()     // the table of listener sets grows
{
    World w; int pre = seq::choose(seq::thorough() ? 40 : 18); for (int i = 0; i < pre; i++) { HT_Timeline* t = ht_timeline_create(0, HT_FALSE, HT_TRUE, ("s" + std::to_string(i)).c_str(), nullptr); SEQ_CHECK(t, "setup"); ht_timeline_destroy(t); }
    arm(8); HT_ErrorCode e = HT_ERR_UNKNOWN; HT_Timeline* t = ht_timeline_create(0, HT_FALSE, HT_TRUE, "x", &e); bool f = fired(); SEQ_CHECK((t != nullptr) == (e == HT_ERR_OK) && (f || t), "creation returned %p, %d", (void*)t, e); if (t) ht_timeline_destroy(t);
    HT_Timeline *a = ht_timeline_create(0, HT_FALSE, HT_TRUE, "x", nullptr), *b = ht_timeline_create(0, HT_FALSE, HT_TRUE, "x", nullptr); int got = 0, d = 0; SEQ_CHECK(a && b, "second attempt failed"); ht_timeline_register_listener_full(a, cbx, &got, nullptr); HT_TIMELINE_PUSH_EVENT(b, EvTiny, 1); SEQ_CHECK(got == 1, "the set is not shared"); (void)d; ht_timeline_destroy(a); ht_timeline_destroy(b); w.end();
}
static void s_listener()
{
    World w; HT_Timeline* t = ht_timeline_create(0, HT_FALSE, HT_TRUE, nullptr, nullptr); int pre = seq::choose(seq::thorough() ? 70 : 36); std::vector<int> n(pre + 3), d(pre + 3); for (int i = 0; i < pre; i++) ht_timeline_register_listener_full(t, cbx, &n[i], nullptr);
    arm(3); HT_ErrorCode e = ht_timeline_register_listener_full(t, cbx, &n[pre], nullptr); bool f = fired(); SEQ_CHECK(f || e == HT_ERR_OK, "refused with %d", e);
    HT_TIMELINE_PUSH_EVENT(t, EvTiny, 1); for (int i = 0; i < pre; i++) SEQ_CHECK(n[i] == 1, "an existing listener got the event %d times", n[i]); SEQ_CHECK(n[pre] == (e == HT_ERR_OK), "a listener that was %s got the event %d times", e ? "refused" : "accepted", n[pre]);
    SEQ_CHECK(ht_timeline_register_listener_full(t, cbx, &n[pre + 1], dcb) == HT_ERR_OK, "second attempt failed"); HT_TIMELINE_PUSH_EVENT(t, EvTiny, 1); for (int i = 0; i < pre; i++) SEQ_CHECK(n[i] == 2, "lost"); SEQ_CHECK(n[pre + 1] == 1, "lost"); ht_timeline_destroy(t); SEQ_CHECK(n[pre + 1] == 2, "destroy callback not called"); w.end();
}
static void s_features()
{
    World w; HT_Timeline* t = ht_timeline_create(0, HT_FALSE, HT_TRUE, nullptr, nullptr); int which = seq::choose(3); auto en = [&] { return which == 0 ? ht_feature_callstack_enable(t) : ht_feature_cached_string_enable(t, which == 2); };
    arm(which ? 2060 : 6); HT_ErrorCode e = en(); bool f = fired(); SEQ_CHECK(f || e == HT_ERR_OK, "refused with %d", e); w.works("after enabling a feature");
    if (e != HT_ERR_OK) SEQ_CHECK(en() == HT_ERR_OK, "second attempt failed"); else SEQ_CHECK(en() == HT_ERR_FEATURE_ALREADY_REGISTERED, "not enabled although reported");
    int got = 0; ht_timeline_register_listener(t, cbx, &got); if (which) SEQ_CHECK(ht_feature_cached_string_add_mapping(t, "q") && got == 1, "the feature does not work"); else { ht_feature_callstack_start_int(t, 1); ht_feature_callstack_stop(t); SEQ_CHECK(got == 1, "the feature does not work"); }
    ht_timeline_destroy(t); w.end();
}
static void s_scheduler()
{
    World w; HT_ErrorCode e = HT_ERR_UNKNOWN; arm(5); HT_TaskScheduler* s = ht_task_scheduler_create(&e); bool f = fired(); SEQ_CHECK((s != nullptr) == (e == HT_ERR_OK) && (f || s), "creation returned %p, %d", (void*)s, e); if (!s) { s = ht_task_scheduler_create(&e); SEQ_CHECK(s, "second attempt failed"); }
    int pre = seq::choose(seq::thorough() ? 70 : 36); std::vector<int> ran(pre + 2); for (int i = 0; i < pre; i++) SEQ_CHECK(ht_task_scheduler_schedule_task(s, HT_TASK_SCHEDULING_RESTART_TIMER, 0, task_cb, &ran[i]) >= 0, "setup");
    arm(4); HT_TaskId id = ht_task_scheduler_schedule_task(s, HT_TASK_SCHEDULING_IGNORE_DELAYS, 0, task_cb, &ran[pre]); f = fired(); SEQ_CHECK(f || id >= 0, "task refused without a failing request");
    ht_task_scheduler_tick(s); for (int i = 0; i < pre; i++) SEQ_CHECK(ran[i] == 1, "an existing task ran %d times", ran[i]); SEQ_CHECK(ran[pre] == (id >= 0), "a task that was %s ran %d times", id >= 0 ? "accepted" : "refused", ran[pre]);
    HT_TaskId id2 = ht_task_scheduler_schedule_task(s, HT_TASK_SCHEDULING_IGNORE_DELAYS, 0, task_cb, &ran[pre + 1]); SEQ_CHECK(id2 >= 0 && id2 != id, "second attempt failed"); ht_task_scheduler_tick(s); SEQ_CHECK(ran[pre + 1] == 1, "task does not run");
    if (id >= 0) SEQ_CHECK(ht_task_scheduler_remove_task(s, id), "accepted task unknown"); ht_task_scheduler_destroy(s); w.end();
}
static void s_file()
{
    World w; HT_Timeline* t = ht_timeline_create(0, HT_FALSE, HT_TRUE, nullptr, nullptr); int pre = seq::choose(2) * 16, mode = seq::choose(2); size_t buf = seq::choose(2) * 100; std::string path = seq::scratch() + "/f"; int dummy = 0; for (int i = 0; i < pre; i++) ht_timeline_register_listener(t, cbx, &dummy);
    HT_ErrorCode e = HT_ERR_UNKNOWN; int before = fds(); arm(8); HT_FileDumpListener* l = mode ? ht_file_dump_listener_register(t, path.c_str(), buf, &e) : ht_file_dump_listener_create(path.c_str(), buf, &e); bool f = fired();
    SEQ_CHECK((l != nullptr) == (e == HT_ERR_OK) && (f || l), "creation returned %p, %d", (void*)l, e); SEQ_CHECK(fds() == before + (l ? 1 : 0), "a failed creation leaves the file open");
    HT_TIMELINE_PUSH_EVENT(t, EvTiny, 3); if (l) { if (!mode) ht_file_dump_listener_destroy(l); else ht_file_dump_listener_stop(l); Bytes b = slurp(path); RDec r; r.run(b); SEQ_CHECK(r.error.empty() && r.good == b.size() && r.klasses.size() == 10, "the dump is not complete"); } w.works("after creating a file listener");
    ht_timeline_destroy(t); w.end();
}
struct DynKlass { HT_EventKlass k; MKCREFLECT_TypeInfo ti; std::string n; DynKlass(const std::string& s) : n(s) { memset(&ti, 0, sizeof ti); ti.name = n.c_str(); ti.fields_count = 0; ti.size = ti.packed_size = 24; k.type_info = &ti; k.serialize = nullptr; k.get_size = nullptr; k.klass_id = HT_INVALID_KLASS_ID; } };
static Bytes meta_bytes; static void cbm(TEventPtr e, size_t n, HT_Boolean, void*) { meta_bytes.append((const char*)e, n); }
static void s_classes()
{
    World w; int pre = seq::choose(seq::thorough() ? 60 : 26); std::vector<std::unique_ptr<DynKlass>> k; for (int i = 0; i < pre + 1; i++) k.emplace_back(new DynKlass("k" + std::to_string(i)));
    for (int i = 0; i < pre; i++) SEQ_CHECK(ht_registry_register_event_klass(&k[i]->k) == (uint32_t)10 + i, "setup"); bool builtin = seq::choose(2);
    HT_EventKlass* kk = builtin ? ht_EvMsg_get_event_klass_instance() : &k[pre]->k; auto reg = [&] { return builtin ? ht_EvMsg_register_event_klass() : ht_registry_register_event_klass(kk); };
    arm(3); uint32_t id = reg(); bool f = fired(); SEQ_CHECK(f ? id == HT_INVALID_KLASS_ID || id == (uint32_t)10 + pre : id == (uint32_t)10 + pre, "registration returned %u", id); w.works("after registering a class");
    size_t n = 0; ht_registry_get_event_klasses(&n); SEQ_CHECK(n == (size_t)10 + pre + (id != HT_INVALID_KLASS_ID), "%zu classes are registered", n);
    meta_bytes.clear(); ht_timeline_listener_push_metadata(cbm, nullptr, HT_TRUE); RDec r; r.run(meta_bytes); SEQ_CHECK(r.error.empty() && r.klasses.size() == n, "metadata is damaged: %s", r.error.c_str());
    uint32_t id2 = reg(); SEQ_CHECK(id2 == (uint32_t)10 + pre, "second attempt returned %u", id2); meta_bytes.clear(); ht_timeline_listener_push_metadata(cbm, nullptr, HT_TRUE); RDec q; q.run(meta_bytes); SEQ_CHECK(q.error.empty() && q.klasses.size() == (size_t)11 + pre, "metadata is damaged: %s", q.error.c_str());
    w.end();
}
static void s_strings()
{
    World w; int kind = seq::choose(3), pre = seq::choose(seq::thorough() ? 40 : 20); static char* area = (char*)calloc(50, 4096);   // kind 0: static labels that fall into one bucket, 1: dynamic labels with one hash, 2: long dynamic label
    auto add = [&](int i) { if (kind == 0) { char* p = area + 4096 * i; snprintf(p, 20, "st%d", i); return ht_feature_cached_string_add_mapping(w.t, p); } std::string s; for (int b = 0; b < 6; b++) s += i >> b & 1 ? "ab" : "bA"; if (kind == 2) s += std::string(600, 'z'); return ht_feature_cached_string_add_mapping_dynamic(w.t, s.c_str()); };
    std::vector<uintptr_t> ids; for (int i = 0; i < pre; i++) ids.push_back(add(i)); ht_timeline_flush(w.t); L0.clear();
    arm(6); uintptr_t id = add(pre); bool f = fired(); ht_timeline_flush(w.t); size_t ev = L0.size();
    if (!f) SEQ_CHECK(id && ev == 1, "mapping failed without a failing request");
    if (kind != 2) { SEQ_CHECK(ev == (id != 0), "identifier %llu returned with %zu mapping events", (unsigned long long)id, ev); for (uintptr_t x : ids) SEQ_CHECK(x != id, "identifier used twice"); }
    L0.clear(); uintptr_t id2 = add(pre); ht_timeline_flush(w.t); SEQ_CHECK(id2, "second attempt failed"); if (kind != 2) { SEQ_CHECK(id == 0 || id2 == id, "identifier changed"); SEQ_CHECK(L0.size() == (id == 0), "%zu mapping events at the second attempt", L0.size()); }
    for (int i = 0; i < pre; i++) SEQ_CHECK(add(i) == ids[i], "an existing mapping changed"); L0.clear(); ht_feature_cached_string_push_map(w.t); ht_timeline_flush(w.t); Bytes all; for (auto& b : L0) all += b; size_t n = 0, p = 0; while (p < all.size()) { n++; p = all.find('\0', p + 28) + 1; } SEQ_CHECK(n == (size_t)pre + 2, "the map holds %zu labels instead of %d", n, pre + 2);
    w.end();
}
static void s_misc()
{
    World w; int which = seq::choose(4); arm(4);
    if (which == 0) { HT_EventIdProvider* p = ht_event_id_provider_create(); bool f = fired(); SEQ_CHECK(p || f, "not created"); if (!p) p = ht_event_id_provider_create(); SEQ_CHECK(p && ht_event_id_provider_next(p) == 0, "not working"); ht_event_id_provider_destroy(p); }
    else if (which == 1) { HT_CPUUsageContext* c = ht_cpu_usage_context_create(nullptr); bool f = fired(); SEQ_CHECK(c || f, "not created"); if (c) ht_cpu_usage_context_destroy(c); }
    else if (which == 2) { HT_MemoryUsageContext* c = ht_memory_usage_context_create(nullptr); bool f = fired(); SEQ_CHECK(c || f, "not created"); if (c) ht_memory_usage_context_destroy(c); }
    else { std::string big(700, 'b'); L0.clear(); HT_TIMELINE_PUSH_EVENT(w.t, HT_StringMappingEvent, 5, big.c_str()); bool f = fired(); ht_timeline_flush(w.t); if (!f) SEQ_CHECK(L0.size() == 2 || L0.size() == 1, "not delivered"); }
    w.works("after that"); w.end();
}
// the per-thread global timeline
static void s_global()
{
    World w; int lim = seq::thorough() ? 2090 : 60; 
    std::thread th([&] { arm(lim); HT_Timeline* g = ht_global_timeline_get(); bool f = fired(); SEQ_CHECK(f || g, "no global timeline"); for (int i = 0; i < 2; i++) { if (g) { int got = 0; SEQ_CHECK(ht_timeline_register_listener(g, cbx, &got) == HT_ERR_OK, "listener refused"); ht_feature_callstack_start_int(g, 1); ht_feature_callstack_stop(g); SEQ_CHECK(ht_feature_cached_string_add_mapping(g, "x"), "no mapping"); ht_timeline_flush(g); SEQ_CHECK(got >= 1, "the global timeline does not deliver"); ht_timeline_unregister_all_listeners(g); } g = ht_global_timeline_get(); } });
    th.join(); w.works("after opening the global timeline"); w.end();
}
// Without a user-supplied allocator: whole life cycles must not make the heap grow.
static void life(unsigned what, int n)
{
    ht_init(0, nullptr); ht_EvTiny_register_event_klass(); HT_ErrorCode e; int got = 0, ran = 0;
    HT_Timeline* t = ht_timeline_create(what & 1 ? 0 : 100, what & 1 ? HT_FALSE : HT_TRUE, HT_TRUE, what & 2 ? "named" : nullptr, &e); SEQ_CHECK(t, "not created");
    for (int i = 0; i < n; i++) SEQ_CHECK(ht_timeline_register_listener(t, cbx, &got) == HT_ERR_OK, "listener refused");
    if (what & 4) { SEQ_CHECK(ht_feature_callstack_enable(t) == HT_ERR_OK && ht_feature_cached_string_enable(t, HT_TRUE) == HT_ERR_OK, "feature refused"); for (int i = 0; i < n; i++) { ht_feature_callstack_start_string(t, "s"); ht_feature_cached_string_add_mapping_dynamic(t, std::string(3 * i, 'a').c_str()); } for (int i = 0; i < n; i++) ht_feature_callstack_stop(t); }
    if (what & 8) { std::string p = seq::scratch() + "/life"; HT_FileDumpListener* l = ht_file_dump_listener_register(t, p.c_str(), 50, &e); SEQ_CHECK(l, "no dump"); HT_TIMELINE_PUSH_EVENT(t, EvTiny, 1); HT_CPUUsageContext* c = ht_cpu_usage_context_create(nullptr); ht_cpu_usage_context_destroy(c); HT_MemoryUsageContext* m = ht_memory_usage_context_create(nullptr); ht_memory_usage_context_destroy(m); }
    std::string big(700, 'b'); HT_TIMELINE_PUSH_EVENT(t, HT_StringMappingEvent, 5, big.c_str()); ht_timeline_destroy(t);
    if (what & 16) { HT_TaskScheduler* s = ht_task_scheduler_create(&e); SEQ_CHECK(s, "no scheduler"); for (int i = 0; i < n; i++) ht_task_scheduler_schedule_task(s, HT_TASK_SCHEDULING_RESTART_TIMER, 0, task_cb, &ran); ht_task_scheduler_tick(s); SEQ_CHECK(ran == n, "%d tasks ran", ran); if (n) ht_task_scheduler_remove_task(s, 0); ht_task_scheduler_destroy(s); HT_EventIdProvider* p = ht_event_id_provider_create(); ht_event_id_provider_destroy(p); }
    if (what & 32) { std::thread th([] { HT_Timeline* g = ht_global_timeline_get(); HT_TIMELINE_PUSH_EVENT(g, EvTiny, 1); ht_feature_cached_string_add_mapping(g, "x"); }); th.join(); }
    ht_deinit();
}
static void s_default()
{
    unsigned what = seq::choose(64); int n = seq::choose(seq::thorough() ? 20 : 3) * (seq::thorough() ? 3 : 17); seq::note("what %u, %d of each", what, n); ht_allocator_set(nullptr, nullptr);
    life(what, n); life(what, n); size_t a = __sanitizer_get_current_allocated_bytes(); life(what, n); life(what, n); size_t b = __sanitizer_get_current_allocated_bytes();
    SEQ_CHECK(b <= a, "two whole life cycles left %zd more bytes allocated", b - a);
    void* p = ht_alloc(1 + n); memset(p, 'p', 1 + n); p = ht_realloc(p, 1000 + n); bool same = true; for (int i = 0; i <= n; i++) same &= ((char*)p)[i] == 'p'; SEQ_CHECK(same, "resizing a block lost its content"); ht_free(p); ht_free(nullptr); p = ht_realloc(nullptr, 10); memset(p, 1, 10); ht_free(p);
    size_t c = __sanitizer_get_current_allocated_bytes(); SEQ_CHECK(c <= b, "released blocks are still allocated (%zd bytes)", c - b); seq::step(); seq::outcome(&what, sizeof what);
}
static const seq::Scenario sc[] = {{"default_allocator", s_default, 0, false}, {"timeline", s_timeline, 0, false}, {"listener_sets", s_sets, 0, false}, {"listener", s_listener, 0, false}, {"features", s_features, 0, false}, {"scheduler_tasks", s_scheduler, 0, false}, {"file_listener", s_file, 0, false}, {"classes", s_classes, 0, false}, {"strings", s_strings, 0, false}, {"misc", s_misc, 0, false}, {"global_timeline", s_global, 0, false}};
int main(int argc, char** argv) { return seq::main(argc, argv, sc, sizeof sc / sizeof *sc); }
