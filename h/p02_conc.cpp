// P02: schedules of several threads on one thread-safe timeline.
#include "conc.h"
#include "ref.hpp"
#include <thread>

struct Cfg { size_t cap; bool serialize; };
struct Op { int kind; size_t len; };           // kind 0 push(text of len), 1 flush
static void listener(TEventPtr ev, size_t n, HT_Boolean ser, void* ud)
{
    int which = (int)(intptr_t)ud;
    mc_log(10 + which, &ser, sizeof ser);       // begin
    mc_point();
    mc_log(20 + which, ev, n);                  // content as seen during the callback
    mc_point();
    mc_log(30 + which, ev, n);                  // end: the content must not have changed meanwhile
}
static std::string text(size_t n, int who, int seq) { std::string s(n, 'a'); for (size_t i = 0; i < n; i++) s[i] = 'a' + (who * 7 + seq * 3 + i) % 26; return s; }
static Msg mk(int who, int seq, size_t len) { return Msg{1000u + who * 100 + seq, 5000u + who * 100 + seq, (uint32_t)who, (uint32_t)seq, text(len, who, seq)}; }

static void run(Cfg c, std::vector<std::vector<Op>> plan, int listeners)
{
    ht_init(0, nullptr);
    uint32_t klass = ht_EvMsg_register_event_klass();
    HT_Timeline* t = ht_timeline_create(c.cap, HT_TRUE, c.serialize, nullptr, nullptr);
    if (!t) mc_fail("timeline not created");
    for (int i = 0; i < listeners; i++) ht_timeline_register_listener(t, listener, (void*)(intptr_t)i);
    std::vector<std::vector<Msg>> msgs(plan.size());
    for (size_t w = 0; w < plan.size(); w++) for (size_t k = 0; k < plan[w].size(); k++) msgs[w].push_back(mk(w, k, plan[w][k].len));
    auto work = [&](size_t w)
    {
        for (size_t k = 0; k < plan[w].size(); k++)
        {
            if (plan[w][k].kind == 0) push_msg(t, msgs[w][k]); else ht_timeline_flush(t);
            mc_log(1, "", 0);
        }
    };
    std::vector<std::thread> th;
    for (size_t w = 1; w < plan.size(); w++) th.emplace_back(work, w);
    work(0);
    for (auto& x : th) x.join();
    ht_timeline_flush(t);
    size_t after_flush = mc_log_count();
    ht_timeline_destroy(t);
    for (size_t i = after_flush; i < mc_log_count(); i++) if (mc_log_get(i).kind >= 10) mc_fail("a flush left events undelivered");
    // raw events keep pointers: decode the structs (the messages are still alive)
    Bytes all;
    for (int l = 0; l < listeners; l++)
    {
        std::vector<size_t> next(plan.size(), 0);
        size_t open = 0; std::vector<size_t> got(plan.size(), 0); Bytes cur; int owner = -1;
        for (size_t i = 0; i < mc_log_count(); i++)
        {
            McLogEntry e = mc_log_get(i);
            if (e.kind == 10 + l) { if (open) mc_fail("two notifications overlap: t%d enters while t%d is inside", e.tid, owner); open = 1; owner = e.tid; if (*(const HT_Boolean*)e.data != (HT_Boolean)c.serialize) mc_fail("wrong serialisation flag"); }
            else if (e.kind == 20 + l) cur.assign((const char*)e.data, e.size);
            else if (e.kind == 30 + l)
            {
                open = 0;
                if (cur != Bytes((const char*)e.data, e.size)) mc_fail("the delivered bytes changed during the notification");
                size_t p = 0;
                while (p < cur.size())
                {
                    Bytes one; uint32_t who, seq;
                    if (c.serialize)
                    {
                        if (p + 28 > cur.size()) mc_fail("split event (%zu bytes left)", cur.size() - p);
                        who = get32(cur, p + 20); seq = get32(cur, p + 24);
                        if (who >= plan.size() || seq >= plan[who].size() || plan[who][seq].kind) mc_fail("corrupt event at offset %zu: who %u seq %u", p, who, seq);
                        Bytes want = ref_msg(klass, msgs[who][seq]);
                        if (cur.compare(p, want.size(), want) != 0) mc_fail("event t%u/%u arrived altered or split", who, seq);
                        p += want.size();
                    }
                    else
                    {
                        if (p + sizeof(EvMsg) > cur.size()) mc_fail("split raw event");
                        EvMsg m; memcpy(&m, cur.data() + p, sizeof m);
                        who = m.who; seq = m.seq;
                        if (who >= plan.size() || seq >= plan[who].size() || plan[who][seq].kind) mc_fail("corrupt raw event: who %u seq %u", who, seq);
                        const Msg& w = msgs[who][seq];
                        if (m.base.klass != ht_EvMsg_get_event_klass_instance() || m.base.timestamp != w.ts || m.base.id != w.id || m.text != w.text.c_str()) mc_fail("raw event altered");
                        p += sizeof(EvMsg);
                    }
                    while (next[who] < plan[who].size() && plan[who][next[who]].kind) next[who]++;
                    if (next[who] != seq) mc_fail("thread %u: event %u arrived when %zu was due (lost, repeated or reordered)", who, seq, next[who]);
                    next[who]++;
                    if (l == 0) { put(all, who); put(all, seq); }
                }
                if (l == 0) all += "|";
            }
        }
        for (size_t w = 0; w < plan.size(); w++)
        {
            while (next[w] < plan[w].size() && plan[w][next[w]].kind) next[w]++;
            if (next[w] != plan[w].size()) mc_fail("listener %d: event %zu of thread %zu was lost", l, next[w], w);
        }
    }
    mc_outcome(all.data(), all.size());
    ht_deinit();
}
// an EvMsg with text of n takes 29+n bytes serialised, sizeof(EvMsg) raw
#define P(n) Op{0, n}
#define F Op{1, 0}
static void s_fit_one() { run({40, true}, {{P(3), P(5)}, {P(4), P(2)}}, 1); }                    // one event fits, two do not
static void s_fit_two() { run({80, true}, {{P(3), P(5), F}, {P(4), P(6)}}, 2); }
static void s_direct() { run({0, true}, {{P(3), P(5)}, {P(4), P(150)}}, 1); }                    // nothing fits: direct hand-over, stack and heap buffers
static void s_mixed() { run({60, true}, {{P(3), P(90), P(1)}, {P(200), P(2)}}, 1); }
static void s_flush() { run({400, true}, {{P(3), F, P(4)}, {F, P(5), F}}, 1); }
static void s_raw() { run({sizeof(EvMsg) * 2, false}, {{P(3), P(5), P(6)}, {P(4), F}}, 1); }
static void s_raw_direct() { run({8, false}, {{P(3), P(5)}, {P(4)}}, 2); }
static void s_three() { run({70, true}, {{P(3)}, {P(4), F}, {P(40)}}, 1); }
static void s_three_raw() { run({sizeof(EvMsg), false}, {{P(3), P(1)}, {P(4)}, {P(40), F}}, 1); }
static const McScenario sc[] = {
    {"fit_one", s_fit_one, 99, 99, 0, 0, 0, 0}, {"fit_two", s_fit_two, 99, 99, 0, 0, 0, 0}, {"direct", s_direct, 99, 99, 0, 0, 0, 0},
    {"mixed", s_mixed, 99, 99, 0, 0, 0, 0}, {"flush", s_flush, 99, 99, 0, 0, 0, 0}, {"raw", s_raw, 99, 99, 0, 0, 0, 0},
    {"raw_direct", s_raw_direct, 99, 99, 0, 0, 0, 0}, {"three", s_three, 99, 99, 0, 0, 0, 0}, {"three_raw", s_three_raw, 99, 99, 0, 0, 0, 0},
};
int main(int argc, char** argv) { return mc_conc_main(argc, argv, sc, sizeof sc / sizeof *sc); }
