// P03: histories over several timelines and listener sets against a reference of sets and owners.
#include "seq.hpp"
#include "ref.hpp"
#include <map>
#include <set>
#include <memory>

struct Lst { int id; int set; int destroyed = 0; bool alive = true; bool has_destroy; };
struct Set { std::string name; bool lib = false; int refs = 0; std::vector<int> listeners; };
struct Ev { int tl; uint32_t seq; bool maybe_dropped = false; Bytes bytes; };
struct Tl { HT_Timeline* t = nullptr; int set = -1; std::vector<Ev> pending; };
struct Call { int listener; Bytes data; };

static std::vector<Lst> L;
static std::vector<Call> calls;
static std::vector<Set> sets;
static std::vector<Tl> tls;
static std::map<uint32_t, std::pair<int, Bytes>> evs;     // seq -> owner timeline, bytes
static bool lib_up;
static void cb(TEventPtr e, size_t n, HT_Boolean, void* ud) { calls.push_back(Call{(int)(intptr_t)ud, Bytes((const char*)e, n)}); }
static void gone(void* ud)
{
    int id = (int)(intptr_t)ud;
    if (++L[id].destroyed > 1) seq::fail("destroy callback of listener %d ran twice", id);
    if (L[id].alive) seq::fail("destroy callback of listener %d ran although its set is still in use", id);
}
// listeners of the sets in `may` can be released during the next operation
static void retire(int s) { for (int l : sets[s].listeners) L[l].alive = false; }

static void settle(const char* op)
{
    // which listeners got which events
    std::map<uint32_t, std::vector<int>> got; std::map<int, std::vector<uint32_t>> order;
    for (auto& c : calls)
    {
        size_t p = 0;
        SEQ_CHECK(c.listener >= 0 && c.listener < (int)L.size(), "%s: unknown listener called", op);
        while (p < c.data.size())
        {
            uint32_t s = get32(c.data, p + 24);
            auto it = evs.find(s);
            SEQ_CHECK(p + 28 <= c.data.size() && it != evs.end() && c.data.compare(p, it->second.second.size(), it->second.second) == 0, "%s: listener %d got bytes that are no whole pushed event", op, c.listener);
            int tl = it->second.first;
            SEQ_CHECK(tls[tl].set == L[c.listener].set, "%s: listener %d of set '%s' got an event of a timeline of set '%s'", op, c.listener, sets[L[c.listener].set].name.c_str(), sets[tls[tl].set].name.c_str());
            got[s].push_back(c.listener);
            auto& o = order[c.listener * 100 + tl];
            SEQ_CHECK(o.empty() || o.back() < s, "%s: reordered or repeated", op);
            o.push_back(s);
            p += it->second.second.size();
        }
    }
    calls.clear();
    for (auto& g : got)
    {
        int tl = evs[g.first].first; bool found = false;
        for (size_t i = 0; i < tls[tl].pending.size(); i++) if (tls[tl].pending[i].seq == g.first) { tls[tl].pending.erase(tls[tl].pending.begin() + i); found = true; break; }
        SEQ_CHECK(found, "%s: event %u was delivered twice", op, g.first);
        std::multiset<int> a(g.second.begin(), g.second.end()), b(sets[tls[tl].set].listeners.begin(), sets[tls[tl].set].listeners.end());
        SEQ_CHECK(a == b, "%s: event %u reached %zu of the %zu listeners registered in set '%s'", op, g.first, a.size(), b.size(), sets[tls[tl].set].name.c_str());
    }
    seq::step();
}
static void drop_check(const char* op, int tl, bool must)
{
    Tl& t = tls[tl];
    if (sets[t.set].listeners.empty()) for (auto& e : t.pending) e.maybe_dropped = true;
    if (must) { for (auto& e : t.pending) SEQ_CHECK(e.maybe_dropped, "%s: event %u was not delivered to the listeners of set '%s'", op, e.seq, sets[t.set].name.c_str()); t.pending.clear(); }
}
static void release(int s)
{
    Set& S = sets[s];
    if (--S.refs == 0) { retire(s); }
}
static void released_check(int s, const char* op)
{
    // a set nobody uses any more: nothing may be kept back
    if (sets[s].refs == 0) { for (int l : sets[s].listeners) SEQ_CHECK(!L[l].has_destroy || L[l].destroyed == 1, "%s: the last owner released the set but listener %d was not destroyed", op, l); sets[s].listeners.clear(); }
}
static int find_set(const char* name)
{
    if (name) for (size_t i = 0; i < sets.size(); i++) if (sets[i].lib && sets[i].name == name) { sets[i].refs++; return i; }
    Set s; s.name = name ? name : "(private)"; s.lib = name != nullptr; s.refs = name ? 2 : 1;
    sets.push_back(s); return sets.size() - 1;
}
static const char* kNames[] = {"a", "b", nullptr, "ab", "bA"};           // the last two collide in the library's string hash
static void create(int name, size_t cap)
{
    char buf[8]; const char* n = kNames[name]; if (n) { strcpy(buf, n); n = buf; }      // the name's storage is reused afterwards
    Tl t; t.t = ht_timeline_create(cap, HT_FALSE, HT_TRUE, n, nullptr);
    if (n) memset(buf, 'z', 3);
    SEQ_CHECK(t.t, "timeline not created");
    t.set = find_set(kNames[name]);
    tls.push_back(t);
}
static void reg(int tl)
{
    int id = L.size(); Lst l; l.id = id; l.set = tls[tl].set; l.has_destroy = id % 3 != 2;
    L.push_back(l);
    HT_ErrorCode e = l.has_destroy ? ht_timeline_register_listener_full(tls[tl].t, cb, (void*)(intptr_t)id, gone) : ht_timeline_register_listener(tls[tl].t, cb, (void*)(intptr_t)id);
    SEQ_CHECK(e == HT_ERR_OK, "registration failed");
    sets[l.set].listeners.push_back(id);
}
static uint32_t nseq;
static void push(int tl)
{
    Msg m{1000 + nseq, 77 + nseq, (uint32_t)tl, nseq, nseq % 2 ? "x" : "long label"};
    Ev e; e.tl = tl; e.seq = nseq; e.bytes = ref_msg(ht_EvMsg_get_event_klass_instance()->klass_id, m);
    evs[nseq] = {tl, e.bytes}; tls[tl].pending.push_back(e); nseq++;
    push_msg(tls[tl].t, m);
}
static void destroy(int tl)
{
    HT_Timeline* t = tls[tl].t; int s = tls[tl].set;
    release(s);
    ht_timeline_destroy(t); tls[tl].t = nullptr;
    settle("destroy"); drop_check("destroy", tl, true);
    released_check(s, "destroy");
}
static void deinit()
{
    lib_up = false;
    for (size_t i = 0; i < sets.size(); i++) if (sets[i].lib) release(i);
    ht_deinit();
    settle("deinit");
    for (size_t i = 0; i < sets.size(); i++) if (sets[i].lib) { released_check(i, "deinit"); sets[i].lib = false; }
}
static void histories(const int* names, int nnames, int depth, int max_tl)
{
    L.clear(); calls.clear(); sets.clear(); tls.clear(); evs.clear(); nseq = 0; lib_up = true;
    ht_init(0, nullptr); ht_EvMsg_register_event_klass();
    size_t cap = seq::choose(2) ? 512 : 0;
    seq::note("capacity %zu:", cap);
    for (int d = 0; d < depth; d++)
    {
        // enumerate the operations possible here
        struct Op { int k, a; }; std::vector<Op> ops; ops.push_back({0, 0});
        int alive = 0; for (auto& t : tls) alive += t.t != nullptr;
        if (lib_up && alive < max_tl && tls.size() < 5) for (int i = 0; i < nnames; i++) ops.push_back({1, names[i]});
        for (size_t i = 0; i < tls.size(); i++) if (tls[i].t) { for (int k = 2; k <= 6; k++) if (!(k == 4 && cap == 0)) ops.push_back({k, (int)i}); }
        if (lib_up && !tls.empty()) ops.push_back({7, 0});
        Op o = ops[seq::choose(ops.size())];
        if (o.k == 0) break;
        if (o.k == 1) { seq::note(" create(%s)", kNames[o.a] ? kNames[o.a] : "-"); create(o.a, cap); settle("create"); }
        else if (o.k == 2) { seq::note(" register(%d)", o.a); reg(o.a); settle("register"); }
        else if (o.k == 3) { seq::note(" push(%d)", o.a); push(o.a); settle("push"); drop_check("push", o.a, cap == 0); }
        else if (o.k == 4) { seq::note(" flush(%d)", o.a); ht_timeline_flush(tls[o.a].t); settle("flush"); drop_check("flush", o.a, true); }
        else if (o.k == 5) { seq::note(" destroy(%d)", o.a); destroy(o.a); }
        else if (o.k == 6)
        {
            seq::note(" unregister(%d)", o.a); int s = tls[o.a].set;
            retire(s);
            ht_timeline_unregister_all_listeners(tls[o.a].t);
            settle("unregister");
            for (int l : sets[s].listeners) SEQ_CHECK(!L[l].has_destroy || L[l].destroyed == 1, "unregister: listener %d was removed but not destroyed", l);
            sets[s].listeners.clear();
            for (size_t i = 0; i < tls.size(); i++) if (tls[i].t && tls[i].set == s) drop_check("unregister", i, false);
        }
        else { seq::note(" deinit"); deinit(); }
        Bytes st; put(st, cap); put(st, lib_up); for (auto& t : tls) { put(st, t.t ? t.set : -1); put(st, t.pending.size()); } for (auto& s : sets) { put(st, s.refs); put(st, s.listeners.size()); }
        seq::state(st);
    }
    // wind down: the rest is destroyed in one of several orders
    int alive = 0; for (auto& t : tls) alive += t.t != nullptr;
    int how = seq::choose(lib_up && alive ? 2 : 1);
    if (how == 1) deinit();
    for (size_t i = 0; i < tls.size(); i++) if (tls[i].t) destroy(i);
    if (lib_up) deinit();
    for (auto& l : L) SEQ_CHECK(!l.has_destroy || l.destroyed == 1, "listener %d was destroyed %d times in the end", l.id, l.destroyed);
    Bytes o; for (auto& t : tls) put(o, t.set); for (auto& l : L) put(o, l.set); put(o, nseq);
    seq::outcome(o); seq::state(o);
}
static const int n_abp[] = {0, 1, 2}, n_coll[] = {3, 4};
static void s_hist() { histories(n_abp, 3, seq::thorough() ? 6 : 5, 3); }
static void s_two() { histories(n_abp, 2, seq::thorough() ? 7 : 6, 2); }
static void s_coll() { histories(n_coll, 2, seq::thorough() ? 6 : 5, 3); }
// many differently named sets: the registry of sets grows
static void s_many()
{
    L.clear(); calls.clear(); sets.clear(); tls.clear(); evs.clear(); nseq = 0; lib_up = true;
    ht_init(0, nullptr); ht_EvMsg_register_event_klass();
    static const int counts[] = {1, 7, 8, 9, 15, 16, 17, 33};
    int n = counts[seq::choose(8)]; bool twice = seq::choose(2); bool down_first = seq::choose(2);
    seq::note("%d sets%s", n, twice ? ", each used by two timelines" : "");
    for (int rep = 0; rep < (twice ? 2 : 1); rep++) for (int i = 0; i < n; i++)
    {
        char nm[32]; snprintf(nm, sizeof nm, "set-%d", i);
        Tl t; t.t = ht_timeline_create(0, HT_FALSE, HT_TRUE, nm, nullptr); SEQ_CHECK(t.t, "not created");
        bool known = false; for (auto& s : sets) known |= s.name == nm;
        t.set = find_set(nm); tls.push_back(t);
        if (!known) reg(tls.size() - 1);
        settle("create");
    }
    for (size_t i = 0; i < tls.size(); i++) { push(i); settle("push"); drop_check("push", i, true); }
    if (down_first) deinit();
    for (size_t i = 0; i < tls.size(); i++) destroy(i);
    if (lib_up) deinit();
    for (auto& l : L) SEQ_CHECK(!l.has_destroy || l.destroyed == 1, "listener %d was destroyed %d times in the end", l.id, l.destroyed);
    seq::outcome(&n, sizeof n);
}
// many listeners in one set, removed and registered again
static void s_crowd()
{
    L.clear(); calls.clear(); sets.clear(); tls.clear(); evs.clear(); nseq = 0; lib_up = true;
    ht_init(0, nullptr); ht_EvMsg_register_event_klass();
    int name = seq::choose(2) ? 0 : 2; size_t cap = seq::choose(2) ? 512 : 0; int users = name == 0 ? 1 + seq::choose(2) : 1;
    int n = seq::choose(seq::thorough() ? 70 : 41); bool unreg = seq::choose(2); static const int more[] = {0, 1, 2, 17, 33}; int m = more[seq::choose(5)];
    seq::note("%d listeners%s, then %d more, %d timelines, capacity %zu", n, unreg ? ", all unregistered" : "", m, users, cap);
    for (int i = 0; i < users; i++) { create(name, cap); settle("create"); }
    for (int i = 0; i < n; i++) { reg(i % users); settle("register"); }
    auto pushes = [&] { for (int i = 0; i < users; i++) { push(i); settle("push"); drop_check("push", i, cap == 0); if (cap) { ht_timeline_flush(tls[i].t); settle("flush"); drop_check("flush", i, true); } } };
    pushes();
    if (unreg)
    {
        int s = tls[0].set; retire(s);
        ht_timeline_unregister_all_listeners(tls[users - 1].t); settle("unregister");
        for (int l : sets[s].listeners) SEQ_CHECK(!L[l].has_destroy || L[l].destroyed == 1, "unregister: listener %d was removed but not destroyed", l);
        sets[s].listeners.clear();
        pushes();
    }
    for (int i = 0; i < m; i++) { reg(i % users); settle("register"); }
    pushes();
    for (int i = 0; i < users; i++) destroy(i);
    deinit();
    for (auto& l : L) SEQ_CHECK(!l.has_destroy || l.destroyed == 1, "listener %d was destroyed %d times in the end", l.id, l.destroyed);
    seq::outcome(&n, sizeof n);
}
static const seq::Scenario sc[] = {{"histories", s_hist, 0, false}, {"two_timelines", s_two, 0, false}, {"colliding_names", s_coll, 0, false}, {"many_sets", s_many, 0, false}, {"many_listeners", s_crowd, 0, false}};
int main(int argc, char** argv) { return seq::main(argc, argv, sc, 5); }
