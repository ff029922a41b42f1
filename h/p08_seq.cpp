// P08: encode (real library, and a reference encoder for shapes and byte orders) -> decode (real reader) for all class shapes and boundary values.
#include "seq.hpp"
#include "dec.hpp"
#include "refdec.hpp"
#include <hawktracer/timeline_listener.h>
using namespace dec;

// ---- the library's own encoder ----
static Bytes sink; static size_t meta_events;
static void cb(TEventPtr e, size_t n, HT_Boolean ser, void*) { SEQ_CHECK(ser, "not serialised"); sink.append((const char*)e, n); }
static Klass kTiny, kMsg, kNums, kD1, kD2, kTrace, kStr3, kCb, kCi, kCs, kMap, kSys; static HT_Timeline* tl;
static std::vector<std::unique_ptr<std::string>> keep; static const char* cs(const Val& v) { keep.emplace_back(new std::string(v.s)); return keep.back()->c_str(); }
static bool null_at[16];
static void open(size_t cap, int perm = 0)
{
    ht_init(0, nullptr);
    // classes may be registered in any order, a derived one also before its base
    { uint32_t (*r[])() = {ht_EvMsg_register_event_klass, ht_EvDerived_register_event_klass, ht_EvDerived2_register_event_klass}; static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; if (perm) for (int i : P[perm]) r[i](); }
    kTiny = {"EvTiny", ht_EvTiny_register_event_klass(), nullptr, {{"v", U8}}};
    kMsg = {"EvMsg", ht_EvMsg_register_event_klass(), nullptr, {{"who", U32}, {"seq", U32}, {"text", STR}}};
    kNums = {"EvNums", ht_EvNums_register_event_klass(), nullptr, {{"i8", I8}, {"u8", U8}, {"i16", I16}, {"u16", U16}, {"i32", I32}, {"u32", U32}, {"i64", I64}, {"u64", U64}}};
    kD1 = {"EvDerived", ht_EvDerived_register_event_klass(), &kMsg, {{"extra", I16}, {"more", STR}}};
    kD2 = {"EvDerived2", ht_EvDerived2_register_event_klass(), &kD1, {{"last", STR}, {"end", U64}}};
    kStr3 = {"EvStr3", ht_EvStr3_register_event_klass(), nullptr, {{"a", STR}, {"b", STR}, {"c", STR}}};
    kCb = {"HT_CallstackBaseEvent", ht_HT_CallstackBaseEvent_get_event_klass_instance()->klass_id, nullptr, {{"duration", U64}, {"thread_id", U32}}};
    kTrace = {"EvTrace", ht_EvTrace_register_event_klass(), &kCb, {{"label", U16}, {"where", STR}}};
    kCi = {"HT_CallstackIntEvent", ht_HT_CallstackIntEvent_get_event_klass_instance()->klass_id, &kCb, {{"label", U64}}};
    kCs = {"HT_CallstackStringEvent", ht_HT_CallstackStringEvent_get_event_klass_instance()->klass_id, &kCb, {{"label", STR}}};
    kMap = {"HT_StringMappingEvent", ht_HT_StringMappingEvent_get_event_klass_instance()->klass_id, nullptr, {{"identifier", U64}, {"label", STR}}};
    kSys = {"HT_SystemInfoEvent", ht_HT_SystemInfoEvent_get_event_klass_instance()->klass_id, nullptr, {{"version_major", U8}, {"version_minor", U8}, {"version_patch", U8}}};
    sink.clear(); keep.clear(); memset(null_at, 0, sizeof null_at);
    ht_timeline_listener_push_metadata(cb, nullptr, HT_TRUE);
    { RDec r; r.run(sink); SEQ_CHECK(r.error.empty() && r.good == sink.size(), "metadata is not readable: %s", r.error.c_str()); meta_events = r.events.size(); }
    tl = ht_timeline_create(cap, HT_FALSE, HT_TRUE, nullptr, nullptr); SEQ_CHECK(tl, "no timeline");
    SEQ_CHECK(ht_timeline_register_listener(tl, cb, nullptr) == HT_ERR_OK, "no listener");
}
template<class T> static void head(T& x, const Ev& e, HT_EventKlass* k) { memset(&x, 0xaa, sizeof x); HT_Event* h = (HT_Event*)&x; h->klass = k; h->timestamp = e.ts; h->id = e.id; }
#define S(i) (null_at[i] ? nullptr : cs(e.vals[i]))
#define NV(i) e.vals[i].n
#define PUSH(x) ht_timeline_push_event(tl, (HT_Event*)&x)
static void push(const Ev& e)
{
    if (!e.k) { HT_Event x; head(x, e, ht_HT_Event_get_event_klass_instance()); PUSH(x); }
    else if (e.k == &kTiny) { EvTiny x; head(x, e, ht_EvTiny_get_event_klass_instance()); x.v = NV(0); PUSH(x); }
    else if (e.k == &kMsg) { EvMsg x; head(x, e, ht_EvMsg_get_event_klass_instance()); x.who = NV(0); x.seq = NV(1); x.text = S(2); PUSH(x); }
    else if (e.k == &kNums) { EvNums x; head(x, e, ht_EvNums_get_event_klass_instance()); x.i8 = NV(0); x.u8 = NV(1); x.i16 = NV(2); x.u16 = NV(3); x.i32 = NV(4); x.u32 = NV(5); x.i64 = NV(6); x.u64 = NV(7); PUSH(x); }
    else if (e.k == &kD1) { EvDerived x; head(x, e, ht_EvDerived_get_event_klass_instance()); x.base.who = NV(0); x.base.seq = NV(1); x.base.text = S(2); x.extra = NV(3); x.more = S(4); PUSH(x); }
    else if (e.k == &kD2) { EvDerived2 x; head(x, e, ht_EvDerived2_get_event_klass_instance()); x.base.base.who = NV(0); x.base.base.seq = NV(1); x.base.base.text = S(2); x.base.extra = NV(3); x.base.more = S(4); x.last = S(5); x.end = NV(6); PUSH(x); }
    else if (e.k == &kTrace) { EvTrace x; head(x, e, ht_EvTrace_get_event_klass_instance()); x.base.duration = NV(0); x.base.thread_id = NV(1); x.label = NV(2); x.where = S(3); PUSH(x); }
    else if (e.k == &kStr3) { EvStr3 x; head(x, e, ht_EvStr3_get_event_klass_instance()); x.a = S(0); x.b = S(1); x.c = S(2); PUSH(x); }
    else if (e.k == &kCb) { HT_CallstackBaseEvent x; head(x, e, ht_HT_CallstackBaseEvent_get_event_klass_instance()); x.duration = NV(0); x.thread_id = NV(1); PUSH(x); }
    else if (e.k == &kCi) { HT_CallstackIntEvent x; head(x, e, ht_HT_CallstackIntEvent_get_event_klass_instance()); x.base.duration = NV(0); x.base.thread_id = NV(1); x.label = NV(2); PUSH(x); }
    else if (e.k == &kCs) { HT_CallstackStringEvent x; head(x, e, ht_HT_CallstackStringEvent_get_event_klass_instance()); x.base.duration = NV(0); x.base.thread_id = NV(1); x.label = S(2); PUSH(x); }
    else if (e.k == &kMap) { HT_StringMappingEvent x; head(x, e, ht_HT_StringMappingEvent_get_event_klass_instance()); x.identifier = NV(0); x.label = S(1); PUSH(x); }
    else if (e.k == &kSys) { HT_SystemInfoEvent x; head(x, e, ht_HT_SystemInfoEvent_get_event_klass_instance()); x.version_major = NV(0); x.version_minor = NV(1); x.version_patch = NV(2); PUSH(x); }
    else seq::fail("harness: unknown class");
}
static void close_and_check(const std::vector<Ev>& evs, bool flat)
{
    ht_timeline_flush(tl); ht_timeline_destroy(tl);
    Got g = read(sink, flat, MEM, "", true);
    SEQ_CHECK(g.started && g.ended, "reader does not start or end");
    SEQ_CHECK(g.err.empty(), "%s", g.err.c_str());
    size_t n = 0; SEQ_CHECK(g.events.size() >= meta_events, "%zu of %zu metadata events decoded", g.events.size(), meta_events);
    for (size_t i = meta_events; i < g.events.size(); i++)      // metadata itself: P05
    {
        SEQ_CHECK(n < evs.size(), "unexpected event %s", g.events[i].c_str());
        std::string w = canon(evs[n], flat); SEQ_CHECK(w == g.events[i], "traced %.300s, decoded %.300s", w.c_str(), g.events[i].c_str());
        n++; seq::step();
    }
    SEQ_CHECK(n == evs.size(), "%zu of %zu events decoded; missing: %.300s", n, evs.size(), canon(evs[n], flat).c_str());
    std::string o; for (auto& e : evs) o += canon(e, flat); seq::state(o); seq::outcome(o);
    ht_deinit();
}
static Val num(uint64_t v) { Val x; x.n = v; return x; } static Val strv(const std::string& s) { Val x; x.s = s; return x; }
static const uint64_t B[] = {0, 1, ~0ull, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0x0102030405060708ull, 0xf1f2f3f4f5f6f7f8ull};
static const int NB = sizeof B / sizeof *B;
static void s_real_numbers()
{
    int f = seq::choose(10), v = seq::choose(NB), rest = seq::choose(3); bool flat = seq::choose(2); open(256);
    static const uint64_t R[] = {0, ~0ull, 0x8877665544332211ull};
    Ev e{&kNums, 17, 18, std::vector<Val>(8, num(R[rest]))}; if (f < 8) e.vals[f] = num(B[v]); else if (f == 8) e.ts = B[v]; else e.id = B[v];
    Ev a{&kTiny, 1, 2, {num(3)}}; std::vector<Ev> l{a, e, a}; for (auto& x : l) push(x); close_and_check(l, flat);
}
static std::string pattern(size_t n) { std::string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = 33 + (i * 7 + i / 90) % 90; return s; }
static void s_real_strings()
{
    int max = seq::thorough() ? 1100 : 280; int len = seq::choose(max + 9), pos = seq::choose(3), cap = seq::choose(3); bool flat = seq::choose(2);
    static const size_t caps[] = {0, 100, 4096}; static const int more[] = {2047, 2048, 2049, 4095, 4096, 4097, 8192, 65536}; if (len > max) len = more[len - max - 1];
    open(caps[cap]); Ev e{&kStr3, 5, 6, {strv("p"), strv(""), strv("q")}}; e.vals[pos] = strv(pattern(len)); Ev a{&kTiny, 1, 2, {num(3)}}; std::vector<Ev> l{e, a}; for (auto& x : l) push(x); close_and_check(l, flat);
}
// a missing (null) string is an empty one, alone or next to others, in base and derived part
static void s_real_null()
{
    open(seq::choose(2) ? 4096 : 8); bool flat = seq::choose(2); int cls = seq::choose(3);
    Ev e = cls == 0 ? Ev{&kStr3, 5, 6, {strv(""), strv(""), strv("")}} : cls == 1 ? Ev{&kD2, 5, 6, {num(1), num(2), strv(""), num(3), strv(""), strv(""), num(4)}} : Ev{&kCs, 5, 6, {num(1), num(2), strv("")}};
    for (size_t i = 0; i < e.vals.size(); i++) { bool s = cls == 0 || (cls == 1 && (i == 2 || i == 4 || i == 5)) || (cls == 2 && i == 2); if (!s) continue; int c = seq::choose(3); null_at[i] = c == 0; if (c == 2) e.vals[i] = strv("text" + std::to_string(i)); }
    Ev a{&kTiny, 1, 2, {num(3)}}; bool nul[16]; memcpy(nul, null_at, sizeof nul); memset(null_at, 0, sizeof null_at); push(a); memcpy(null_at, nul, sizeof nul); push(e); memset(null_at, 0, sizeof null_at); push(a);
    close_and_check({a, e, a}, flat);
}
static void s_real_bytes()
{
    int c = 1 + seq::choose(255), pos = seq::choose(4); bool flat = seq::choose(2); open(4096);
    std::string s = pos == 3 ? std::string(40, (char)c) : pattern(9); if (pos < 3) s[pos * 4] = (char)c;
    Ev e{&kD1, 5, 6, {num(1), num(2), strv(s), num(0xfffe), strv(s + "x" + s)}}; push(e); push(e); close_and_check({e, e}, flat);
}
static std::vector<Ev> pool()
{
    return {{nullptr, 7, 8, {}}, {&kTiny, 9, 10, {num(0x80)}}, {&kMsg, 11, ~0ull, {num(1), num(0xffffffff), strv("msg")}}, {&kNums, 1ull << 63, 2, {num(0x80), num(0x80), num(0x8000), num(0x8000), num(0x80000000u), num(0x80000000u), num(1ull << 63), num(1ull << 63)}},
        {&kD1, 5, 6, {num(1), num(2), strv("b"), num(0x8001), strv("")}}, {&kD2, 6, 7, {num(3), num(4), strv(""), num(0x7fff), strv("mm"), strv(pattern(70)), num(~0ull)}},
        {&kTrace, 1, 1, {num(~0ull), num(0xfffffffe), num(0xff00), strv("here")}}, {&kStr3, 2, 2, {strv(""), strv("a"), strv(pattern(33))}}, {&kCb, 3, 3, {num(12), num(5)}},
        {&kCi, 3, 4, {num(1ull << 40), num(2), num(0xdeadbeefcafe1234ull)}}, {&kCs, 3, 5, {num(1), num(1), strv("label \xff\x01")}}, {&kMap, 4, 4, {num(0x123456789abcull), strv("mapped")}}, {&kSys, 5, 5, {num(1), num(255), num(128)}}};
}
static void s_real_orders()
{
    int perm = seq::choose(6); bool flat = seq::choose(2); open(64, perm); auto p = pool(); std::vector<Ev> l; for (int i = 0; i < 3; i++) { int c = seq::choose(4); if (c == 3) break; static const int at[] = {2, 4, 5}; l.push_back(p[at[c]]); }
    for (auto& e : l) push(e); close_and_check(l, flat);
}
static void s_real_sequences()
{
    static const size_t caps[] = {0, 64, 4096}; int cap = seq::choose(3); bool flat = seq::choose(2); open(caps[cap]); auto p = pool();
    int n = seq::thorough() ? 4 : 3; std::vector<Ev> l; for (int i = 0; i < n; i++) { int c = seq::choose(p.size() + 1); if (c == (int)p.size()) break; l.push_back(p[c]); }
    for (auto& e : l) push(e); close_and_check(l, flat);
}

// ---- the reader on reference-encoded streams: every class shape, both byte orders ----
static Val value(Kind k, int variant, int i)
{
    static const uint64_t N[] = {0x0102030405060708ull, 0x8000000000000000ull >> 0, ~0ull, 0}; unsigned w = width(k);
    if (k == STR) { static const char* S_[] = {"", "\xff\x80z", "q"}; return strv(variant == 3 ? pattern(31 + i) : S_[variant]); }
    uint64_t v = variant == 1 ? 1ull << (8 * w - 1) : variant == 0 ? N[0] + 0x1111111111111111ull * i : N[variant]; if (w < 8) v &= (1ull << 8 * w) - 1; return num(v);
}
static void both_modes(const Trace& t)
{
    for (int flat = 0; flat < 2; flat++) { Got g = read(t.b, flat, MEM, "", true); std::string e = compare(t, g, flat, t.items.size()); SEQ_CHECK(e.empty(), "%s, %s byte order: %s", flat ? "flat" : "nested", t.swap ? "opposite" : "native", e.c_str()); seq::step(); }
    seq::state(t.b); seq::outcome(t.b);
}
static void s_shapes()
{
    int n = seq::choose(seq::thorough() ? 5 : 4); std::vector<Kind> ks; std::vector<int> lv; int cur = 0;
    for (int i = 0; i < n; i++) { ks.push_back((Kind)seq::choose(9)); cur += seq::choose(3 - cur); lv.push_back(cur); }
    int depth = 1 + (n ? cur : 0) + (n == 0 ? seq::choose(3) : 0);
    static const uint32_t base_id[] = {4, 0xfffffff0u}; uint32_t id0 = base_id[n & 1];
    Klass k[3]; const Klass* top = nullptr;
    for (int d = 0; d < depth; d++) { k[d] = {std::string("Kl") + (char)('A' + d), id0 + d * 3, top, {}}; for (int i = 0; i < n; i++) if (lv[i] == d) k[d].fields.push_back({"f" + std::to_string(i), ks[i]}); top = &k[d]; }
    for (int sw = 0; sw < 2; sw++)
    {
        Trace t; t.swap = sw; t.byte_order(sw); for (int d = 0; d < depth; d++) t.announce(k[d]);
        for (int variant = 0; variant < 4; variant++) { Ev e{top, 0x1122334455667788ull + variant, 0x99aabbccddeeff00ull + variant, {}}; for (int i = 0; i < n; i++) e.vals.push_back(value(ks[i], variant, i)); t.event(e); }
        both_modes(t);
    }
}
// numbers of every width in the opposite byte order, every boundary value
static void s_swapped()
{
    Kind kd = (Kind)seq::choose(8); int v = seq::choose(NB); bool sw = seq::choose(2); Klass k{"K", 77, nullptr, {{"before", STR}, {"n", kd}, {"after", I16}}};
    Trace t; t.swap = sw; t.byte_order(sw); t.announce(k); t.event({&k, B[v], ~B[v], {strv("s"), num(B[v] & (width(kd) < 8 ? (1ull << 8 * width(kd)) - 1 : ~0ull)), num(0xfe01)}}); t.event({nullptr, ~B[v], B[v], {}}); both_modes(t);
}
// announcements may come in any order and between events; the same class may be announced again; events before any announcement are plain ones
static void s_interleaved()
{
    bool sw = seq::choose(2); int order = seq::choose(3); Klass a{"A", 9, nullptr, {{"x", I32}, {"s", STR}}}, b{"B", 5, &a, {{"y", U16}}}, c{"C", 300, &b, {{"z", I64}}}, o{"Other", 0x10000, nullptr, {{"w", U8}}};
    auto ev = [&](const Klass* k, int i) { Ev e{k, (uint64_t)i, 100u + i, {}}; int j = 0; std::vector<const Klass*> ch; for (auto q = k; q; q = q->base) ch.insert(ch.begin(), q); for (auto q : ch) for (auto& f : q->fields) e.vals.push_back(value(f.kind, i % 4, j++)); return e; };
    Trace t; t.swap = sw; if (sw || seq::choose(2)) t.byte_order(sw);
    if (order != 1) t.announce_head();
    bool known[4] = {false, false, false, false}; const Klass* all[] = {&a, &b, &c, &o};
    for (int i = 0; i < 6; i++)
    {
        int op = seq::choose(5);
        if (op == 4) t.event({nullptr, (uint64_t)i, 7, {}});
        else
        {
            bool ready = !all[op]->base || known[op - 1];
            if (!ready) { seq::discard(); return; }
            if (!known[op]) { t.announce(*all[op]); known[op] = true; } else { if (order == 2) t.announce(*all[op]); t.event(ev(all[op], i)); }
        }
    }
    both_modes(t);
}
static const seq::Scenario sc[] = {
    {"real_numbers", s_real_numbers, 0, false}, {"real_strings", s_real_strings, 0, false}, {"real_null", s_real_null, 0, false}, {"real_bytes", s_real_bytes, 0, false}, {"real_orders", s_real_orders, 0, true}, {"real_sequences", s_real_sequences, 0, false},
    {"shapes", s_shapes, 0, false}, {"swapped", s_swapped, 0, false}, {"interleaved", s_interleaved, 0, false},
};
int main(int argc, char** argv) { return seq::main(argc, argv, sc, sizeof sc / sizeof *sc); }
