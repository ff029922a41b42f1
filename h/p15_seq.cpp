// P15: histories of a task scheduler under an explored clock, against a reference schedule.
#include "seq.hpp"
#include "ref.hpp"
#include "fakeclock.hpp"
#include <hawktracer/task_scheduler.h>
#include <hawktracer/duration_conversion.h>
#include <hawktracer/monotonic_clock.h>
#include <algorithm>
#include <memory>
#include <set>

struct World;
struct Task { World* w; int n; HT_TaskId id; int mode; uint64_t period, due; int lives; bool alive = true; int runs = 0; uint64_t slow = 0; int spawn = 0; std::vector<int> cancels = {}; bool cancelled = false; };   // lives: runs until it asks to stop, -1 for ever
static HT_Boolean run(void* ud);
static HT_Boolean never(void*) { seq::fail("a callback ran that belongs to no task"); }
struct World
{
    HT_TaskScheduler* s; std::vector<std::unique_ptr<Task>> tasks; std::set<HT_TaskId> ids; bool in_tick = false; uint64_t last_now = 0;
    World() { HT_ErrorCode e = HT_ERR_UNKNOWN; s = ht_task_scheduler_create(&e); SEQ_CHECK(s && e == HT_ERR_OK, "scheduler not created"); }
    ~World() { ht_task_scheduler_destroy(s); }
    Task* add(int mode, uint64_t period, int lives)
    {
        Task* t = new Task{this, (int)tasks.size(), 0, mode, period, fake_ns + period, lives}; tasks.emplace_back(t);
        t->id = ht_task_scheduler_schedule_task(s, mode ? HT_TASK_SCHEDULING_RESTART_TIMER : HT_TASK_SCHEDULING_IGNORE_DELAYS, period, run, t);
        SEQ_CHECK(t->id >= 0, "task not scheduled"); SEQ_CHECK(ids.insert(t->id).second, "task identifier %d was used before", t->id); return t;
    }
    void remove(Task* t) { bool r = ht_task_scheduler_remove_task(s, t->id); SEQ_CHECK(r == t->alive, "removing task %d (%s) returned %d", t->n, t->alive ? "existing" : "gone", r); if (t->alive && in_tick) t->cancelled = true; t->alive = false; check_period(); }
    void tick()
    {
        for (auto& t : tasks) t->runs = 0, t->cancelled = false;
        std::vector<Task*> must, maynot; uint64_t t0 = fake_ns;
        for (auto& t : tasks) { if (t->alive && t->due <= t0) must.push_back(t.get()); else maynot.push_back(t.get()); }
        in_tick = true; size_t before = tasks.size(); ht_task_scheduler_tick(s); in_tick = false;
        for (Task* t : must) SEQ_CHECK(t->runs == 1 || (t->runs == 0 && t->cancelled), "task %d was due and ran %d times in one tick", t->n, t->runs);
        for (Task* t : maynot) SEQ_CHECK(t->runs == 0 || fake_ns != t0, "task %d ran although it is %s", t->n, t->alive ? "not due" : "gone");
        for (size_t i = before; i < tasks.size(); i++) SEQ_CHECK(tasks[i]->runs == 0 || fake_ns != t0, "a task scheduled during the tick ran at once although its period has not passed");
        check_period(); seq::step();
    }
    void check_period()
    {
        uint64_t g = 0; for (auto& t : tasks) if (t->alive && t->period) { uint64_t a = g, b = t->period; while (b) { uint64_t c = a % b; a = b; b = c; } g = a; }
        uint64_t r = ht_task_scheduler_get_optimal_tick_period(s); SEQ_CHECK(r == g, "suggested tick period %llu, greatest common divisor is %llu", (unsigned long long)r, (unsigned long long)g);
    }
    void note_state() { Bytes b; for (auto& t : tasks) if (t->alive) { put(b, t->mode); put(b, t->period); put(b, t->due - fake_ns); put(b, t->lives); } seq::state(b); }
};
static HT_Boolean run(void* ud)
{
    Task* t = (Task*)ud; SEQ_CHECK(t->w->in_tick, "a task ran outside of a tick"); SEQ_CHECK(t->alive, "task %d ran after it was removed or asked to stop", t->n);
    SEQ_CHECK(t->due <= fake_ns, "task %d ran %llu ns too early", t->n, (unsigned long long)(t->due - fake_ns));
    t->runs++; SEQ_CHECK(t->runs == 1, "task %d ran twice in one tick", t->n); Bytes o; put(o, t->n); put(o, fake_ns); seq::outcome(o);
    if (t->spawn) { t->spawn = 0; t->w->add(t->mode, 4, -1); }
    for (int c : t->cancels) { Task* v = t->w->tasks[c].get(); seq::note(" [%d removes %d]", t->n, c); t->w->remove(v); }
    fake_ns += t->slow;
    if (t->lives > 0 && --t->lives == 0) { t->alive = false; return HT_FALSE; }
    t->due = t->mode ? fake_ns + t->period : t->due + t->period; return HT_TRUE;
}
static void s_histories()
{
    FakeClock fc(1000); World w; int depth = seq::thorough() ? 6 : 5; static const uint64_t P[] = {0, 2, 3}; static const int L[] = {-1, 1};
    for (int i = 0; i < depth; i++)
    {
        int o = seq::choose(19); if (o == 0) break;
        if (o <= 12) { int k = o - 1; w.add(k / 6, P[k % 3], L[k / 3 % 2]); w.check_period(); seq::note(" schedule(%s,%d,%s)", k / 6 ? "restart" : "ignore", (int)P[k % 3], k / 3 % 2 ? "once" : "ever"); }
        else if (o <= 15) { static const int adv[] = {0, 1, 5}; fake_ns += adv[o - 13]; seq::note(" +%d tick", adv[o - 13]); w.tick(); }
        else if (o == 16) { if (w.tasks.empty()) break; w.remove(w.tasks[0].get()); seq::note(" remove-first"); }
        else if (o == 17) { if (w.tasks.empty()) break; w.remove(w.tasks.back().get()); seq::note(" remove-last"); }
        else { SEQ_CHECK(!ht_task_scheduler_remove_task(w.s, 77), "removing an unknown task succeeded"); SEQ_CHECK(!ht_task_scheduler_remove_task(w.s, -1), "removing task -1 succeeded"); SEQ_CHECK(ht_task_scheduler_schedule_task(w.s, HT_TASK_SCHEDULING_RESTART_TIMER, 1, nullptr, nullptr) == HT_TASK_SCHEDULER_INVALID_TASK_ID, "a task without callback was accepted"); }
        w.note_state(); seq::step();
    }
    w.tick(); fake_ns += 2; w.tick(); fake_ns += 1; w.tick();
}
// two or three tasks, long runs of ticks with every pattern of time steps
static void s_long()
{
    FakeClock fc(1000); World w; static const uint64_t P[] = {0, 1, 3, 4}; int n = 1 + seq::choose(2);
    for (int i = 0; i < n; i++) { int m = seq::choose(2), p = seq::choose(4), l = seq::choose(3) - 1; if (l == 0) l = 2; w.add(m, P[p], l); seq::note(" schedule(%s,%d,%d)", m ? "restart" : "ignore", (int)P[p], l); }
    for (int i = 0; i < (seq::thorough() ? 7 : 5); i++) { static const int adv[] = {0, 1, 2, 9}; int a = adv[seq::choose(4)]; fake_ns += a; seq::note(" +%d tick", a); w.tick(); w.note_state(); }
}
// callbacks that take time or schedule another task
static void s_slow()
{
    FakeClock fc(1000); World w; static const uint64_t P[] = {0, 3, 5}; int n = 1 + seq::choose(3);
    for (int i = 0; i < n; i++) { Task* t = w.add(seq::choose(2), P[seq::choose(3)], seq::choose(2) ? -1 : 1); int k = seq::choose(3); if (k == 1) t->slow = 4; if (k == 2) t->spawn = 1; }
    for (int i = 0; i < 4; i++) { static const int adv[] = {3, 1, 6, 0}; fake_ns += adv[i]; for (auto& t : w.tasks) t->slow = n == 1 ? t->slow : t->slow; w.tick(); w.note_state(); }
}
// callbacks that remove tasks, their own included, at any of their runs
static void s_cancel()
{
    FakeClock fc(1000); World w; static const uint64_t P[] = {0, 2, 3}; int n = 1 + seq::choose(seq::thorough() ? 4 : 3);
    for (int i = 0; i < n; i++) { Task* t = w.add(seq::choose(2), P[seq::choose(n > 2 && !seq::thorough() ? 2 : 3)], seq::choose(2) ? -1 : 1); int c = seq::choose(n + 2 + (n > 1)); if (c && c <= n) t->cancels = {c - 1}; else if (c == n + 1) t->cancels = {i, (i + 1) % n}; else if (c == n + 2) { for (int j = 0; j < n; j++) t->cancels.push_back(j); } seq::note(" task(%s,%d,%s,%d)", t->mode ? "restart" : "ignore", (int)t->period, t->lives < 0 ? "ever" : "once", c); if (c && seq::choose(2)) t->spawn = 1; }
    for (int i = 0; i < 3; i++) { static const int adv[] = {0, 2, 3}; int a = adv[i]; fake_ns += a; seq::note(" +%d tick", a); w.tick(); w.note_state(); }
    w.add(0, 2, -1); for (auto& t : w.tasks) t->cancels.clear(); w.remove(w.tasks[seq::choose(n)].get()); fake_ns += 4; w.tick();
}
// many tasks, all due in one tick, one of which removes a subset
static void s_cancel_many()
{
    FakeClock fc(1000); World w; int n = 1 + seq::choose(seq::thorough() ? 80 : 40), who = seq::choose(n), step = 1 + seq::choose(4), off = seq::choose(3); seq::note("%d tasks, number %d removes every %d. from %d", n, who, step, off);
    for (int i = 0; i < n; i++) w.add(i & 1, 1, i % 5 == 4 ? 1 : -1); for (int i = off; i < n; i += step) w.tasks[who]->cancels.push_back(i);
    fake_ns += 1; w.tick(); fake_ns += 1; w.tasks[who]->cancels.clear(); w.tick(); w.add(0, 2, -1); fake_ns += 4; w.tick(); for (auto& t : w.tasks) w.remove(t.get()); fake_ns += 4; w.tick(); Bytes o; put(o, n); put(o, who); put(o, step); seq::outcome(o);
}
// durations written with the macros: every unit x operand type x value whose result fits
static void s_durations()
{
    static const uint64_t V[] = {0, 1, 2, 4, 5, 7, 10, 60, 3600, 4294, 4295, 86400, 4294967, 4294968, 2147483647, 4294967295ull, 4294967296ull, 9000000000ull}; uint64_t v = V[seq::choose(18)], k = 0, r = 0; int unit = seq::choose(4), type = seq::choose(9); uint64_t f = unit == 0 ? 1 : unit == 1 ? 1000 : unit == 2 ? 1000000 : 1000000000;
    #define D(X) (unit == 0 ? (uint64_t)(HT_DUR_NS(X)) : unit == 1 ? (uint64_t)(HT_DUR_US(X)) : unit == 2 ? (uint64_t)(HT_DUR_MS(X)) : (uint64_t)(HT_DUR_S(X)))
    if ((type == 0 || type == 4 || type == 5 || type == 7) && v > 2147483647) v = 2147483647; if ((type == 1) && v > 4294967295ull) v = 4294967295ull; if (type == 6 && v > 255) v = 255; if (type == 5) v |= 1;
    int i = v; unsigned u = v; long l = v; double d = v; unsigned char c = v; int one = 1;
    switch (type) { case 0: r = D(i); break; case 1: r = D(u); break; case 2: r = D(l); break; case 3: r = D(v); break; case 4: i -= v > 0; r = D(i + 1); if (!v) v = 1; break; case 5: i &= ~1; r = D(i | one); break; case 6: r = D(c); break; case 7: r = D(one ? i : 0); break; default: r = D(d); }
    k = v * f; seq::note("unit %d, operand kind %d, value %llu", unit, type, (unsigned long long)v); SEQ_CHECK(r == k, "%llu ns instead of %llu", (unsigned long long)r, (unsigned long long)k); seq::step(); seq::outcome(&k, 8);
}
// many tasks: growth and shrinking of the table, every subset pattern of stopping and removed ones
static void s_many()
{
    FakeClock fc(1000); World w; int n = 1 + seq::choose(seq::thorough() ? 140 : 70), stop = 1 + seq::choose(5), rem = seq::choose(6), off = seq::choose(3); seq::note("%d tasks, every %d. stops, every %d. removed", n, stop, rem);
    for (int i = 0; i < n; i++) w.add(i & 1, 1 + i % 3, (i + off) % stop == 0 ? 1 : -1);
    if (rem) for (int i = off; i < n; i += rem) w.remove(w.tasks[i].get());
    fake_ns += 1; w.tick(); fake_ns += 1; w.tick(); w.add(0, 2, -1); fake_ns += 4; w.tick();
    for (auto& t : w.tasks) w.remove(t.get());
    fake_ns += 40; w.tick(); w.add(1, 0, 1); w.tick(); w.tick(); Bytes o; put(o, n); put(o, stop); put(o, rem); seq::outcome(o);
}
// suggested period for every set of up to four periods
static void s_gcd()
{
    FakeClock fc(1000); World w; static const uint64_t P[] = {0, 1, 2, 3, 4, 6, 9, 10, 15, 25, 1000000000ull, 30ull << 40, (1ull << 63), ~0ull - 5000}; int n = 1 + seq::choose(seq::thorough() ? 5 : 4);
    for (int i = 0; i < n; i++) { w.add(0, P[seq::choose(14)], -1); w.check_period(); }
    w.remove(w.tasks[0].get()); seq::step(); uint64_t g = ht_task_scheduler_get_optimal_tick_period(w.s); seq::outcome(&g, 8);
}
static const seq::Scenario sc[] = {{"histories", s_histories, 0, false}, {"time_patterns", s_long, 0, false}, {"slow_or_spawning", s_slow, 0, false}, {"many", s_many, 0, false}, {"suggested_period", s_gcd, 0, false}, {"removing_callbacks", s_cancel, 0, false}, {"removing_many", s_cancel_many, 0, false}, {"durations", s_durations, 0, false}};
int main(int argc, char** argv) { return seq::main(argc, argv, sc, sizeof sc / sizeof *sc); }
