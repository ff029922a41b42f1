// P04: schedules of threads that draw event identifiers and thread identifiers.
#include "conc.h"
#include "ref.hpp"
#include <hawktracer/thread.h>
#include <thread>
#include <algorithm>

static std::vector<std::vector<uint64_t>> drawn;
static void check(uint64_t total, const char* what)
{
    std::vector<uint64_t> all; Bytes o;
    for (auto& v : drawn) for (size_t i = 0; i < v.size(); i++) { if (i && v[i] <= v[i - 1]) mc_fail("%s: a thread got %llu after %llu", what, (unsigned long long)v[i], (unsigned long long)v[i - 1]); all.push_back(v[i]); put(o, (uint8_t)v[i]); }
    mc_outcome(o.data(), o.size());
    std::sort(all.begin(), all.end());
    if (all.size() != total) mc_fail("%s: %zu identifiers instead of %llu", what, all.size(), (unsigned long long)total);
    for (uint64_t i = 0; i < total; i++) if (all[i] != i) mc_fail("%s: identifier %llu was %s", what, (unsigned long long)i, i && all[i] == all[i - 1] ? "skipped while another was handed out twice" : "not handed out in sequence");
}
static void draws(HT_EventIdProvider* p, std::vector<int> n)
{
    drawn.assign(n.size(), {});
    auto work = [&](size_t w) { for (int i = 0; i < n[w]; i++) { uint64_t v = ht_event_id_provider_next(p); drawn[w].push_back(v); mc_point(); } };
    std::vector<std::thread> th; for (size_t w = 1; w < n.size(); w++) th.emplace_back(work, w);
    work(0); for (auto& t : th) t.join();
    uint64_t total = 0; for (int k : n) total += k;
    check(total, "provider");
}
static void s_default2() { draws(ht_event_id_provider_get_default(), {3, 3}); }
static void s_default3() { draws(ht_event_id_provider_get_default(), {2, 2, 2}); }
static void s_private()
{
    HT_EventIdProvider* p = ht_event_id_provider_create(); HT_EventIdProvider* q = ht_event_id_provider_create();
    std::vector<uint64_t> other;
    std::thread t([&] { for (int i = 0; i < 2; i++) other.push_back(ht_event_id_provider_next(q)); });
    draws(p, {2, 2});
    t.join();
    if (other != std::vector<uint64_t>{0, 1}) mc_fail("two providers influence each other");
    ht_event_id_provider_destroy(p); ht_event_id_provider_destroy(q);
}
static void cb(TEventPtr e, size_t n, HT_Boolean, void* ud) { Bytes b((const char*)e, n); for (size_t p = 0; p + 21 <= n; p += 21) { drawn[(intptr_t)ud].push_back(get64(b, p + 12)); } }
// events pushed to timelines of different threads
static void s_pushed()
{
    ht_init(0, nullptr); ht_EvTiny_register_event_klass();
    drawn.assign(3, {});
    auto work = [&](int w)
    {
        HT_Timeline* t = ht_timeline_create(64, HT_FALSE, HT_TRUE, nullptr, nullptr); ht_timeline_register_listener(t, cb, (void*)(intptr_t)w);
        if (w == 2) { EvTiny e; e.base.klass = ht_EvTiny_get_event_klass_instance(); e.v = 1; ht_timeline_init_event(t, &e.base); ht_timeline_push_event(t, &e.base); }
        else { HT_TIMELINE_PUSH_EVENT(t, EvTiny, 1); HT_TIMELINE_PUSH_EVENT(t, EvTiny, 2); }
        ht_timeline_destroy(t);
    };
    std::thread a(work, 1), b(work, 2); work(0); a.join(); b.join();
    check(5, "pushed events");
    ht_deinit();
}
// the same shared timeline from two threads
static void s_shared()
{
    ht_init(0, nullptr); ht_EvTiny_register_event_klass();
    drawn.assign(1, {});
    HT_Timeline* t = ht_timeline_create(0, HT_TRUE, HT_TRUE, nullptr, nullptr); ht_timeline_register_listener(t, cb, nullptr);
    auto work = [&] { HT_TIMELINE_PUSH_EVENT(t, EvTiny, 1); HT_TIMELINE_PUSH_EVENT(t, EvTiny, 2); };
    std::thread a(work); work(); a.join();
    std::sort(drawn[0].begin(), drawn[0].end());            // arrival order at the shared timeline is free
    check(4, "shared timeline");
    ht_timeline_destroy(t); ht_deinit();
}
static void threads(int n, int extra_later)
{
    std::vector<HT_ThreadId> ids(n + extra_later);
    auto work = [&](int w)
    {
        HT_ThreadId a = ht_thread_get_current_thread_id(); mc_point();
        HT_ThreadId b = ht_thread_get_current_thread_id(); mc_point();
        HT_ThreadId c = ht_thread_get_current_thread_id();
        if (a == 0) mc_fail("thread identifier is zero");
        if (a != b || b != c) mc_fail("thread identifier changed from %u to %u/%u", (unsigned)a, (unsigned)b, (unsigned)c);
        ids[w] = a;
    };
    std::vector<std::thread> th; for (int i = 1; i < n; i++) th.emplace_back(work, i);
    work(0); for (auto& t : th) t.join();
    for (int i = 0; i < extra_later; i++) { std::thread t(work, n + i); t.join(); }
    for (size_t i = 0; i < ids.size(); i++) for (size_t j = 0; j < i; j++) if (ids[i] == ids[j]) mc_fail("two threads have thread identifier %u", (unsigned)ids[i]);
    mc_outcome(ids.data(), ids.size() * sizeof ids[0]);
}
static void s_threads2() { threads(2, 2); }
static void s_threads3() { threads(3, 1); }
static const McScenario sc[] = {
    {"default_two", s_default2, 99, 99, 0, 0, 0, 0}, {"default_three", s_default3, 3, 99, 0, 0, 0, 0}, {"private_providers", s_private, 3, 99, 0, 0, 0, 0},
    {"pushed_events", s_pushed, 3, 99, 0, 0, 0, 0}, {"shared_timeline", s_shared, 99, 99, 0, 0, 0, 0}, {"thread_ids_two", s_threads2, 99, 99, 0, 0, 0, 0}, {"thread_ids_three", s_threads3, 3, 99, 0, 0, 0, 0},
};
int main(int argc, char** argv) { return mc_conc_main(argc, argv, sc, sizeof sc / sizeof *sc); }
