// P07: every byte prefix of a family of traces, through file and socket style streams, both decoding modes and byte orders.
#include "seq.hpp"
#include "dec.hpp"
#include "refdec.hpp"
#include <hawktracer/listeners/file_dump_listener.h>
#include <unistd.h>
using namespace dec;
static Val num(uint64_t v) { Val x; x.n = v; return x; } static Val strv(const std::string& s) { Val x; x.s = s; return x; }
static std::string pattern(size_t n) { std::string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = 33 + (i * 7) % 90; return s; }

static Klass kA{"EvA", 4, nullptr, {{"a", U8}, {"s", STR}}}, kB{"EvB", 5, &kA, {{"t", STR}, {"b", I16}}}, kC{"EvC", 6, &kB, {{"c", U64}, {"u", STR}}}, kN{"Nums", 260, nullptr, {{"i8", I8}, {"u8", U8}, {"i16", I16}, {"u16", U16}, {"i32", I32}, {"u32", U32}, {"i64", I64}, {"u64", U64}}}, kE{"Empty", 7, nullptr, {}}, kX{"Ext", 8, &kE, {}};
static Ev sample(const Klass* k, int i)
{
    Ev e{k, 0x0101010101010101ull * (i + 1), 0x0202020202020202ull * (i + 1), {}}; std::vector<const Klass*> ch; for (auto q = k; q; q = q->base) ch.insert(ch.begin(), q); int j = i;
    for (auto q : ch) for (auto& f : q->fields) { j++; e.vals.push_back(f.kind == STR ? strv(j % 3 == 0 ? "" : j % 3 == 1 ? "xyz" : pattern(32 + j)) : num(0x8182838485868788ull + j)); } return e;
}
static const Klass* const all[] = {nullptr, &kA, &kB, &kC, &kN, &kE, &kX};
static const int NK = 7;
static Trace build(bool sw, bool order_event, const std::vector<int>& evs, bool late)
{
    Trace t; t.swap = sw; if (order_event) t.byte_order(sw); bool known[NK] = {true};
    if (!late) { t.announce_head(); for (int i = 1; i < NK; i++) t.announce(*all[i]); }
    int i = 0; for (int k : evs) { if (late) { std::vector<const Klass*> ch; for (auto q = all[k]; q; q = q->base) ch.insert(ch.begin(), q); for (auto q : ch) for (int j = 1; j < NK; j++) if (all[j] == q && !known[j]) { t.announce(*q); known[j] = true; } } t.event(sample(all[k], i++)); }
    return t;
}
static void cut(const Trace& t, size_t n, bool flat, Via via)
{
    Trace c = t; c.b.resize(n); std::string path;
    if (via == FILE_) { path = "cut.htdump"; FILE* f = fopen(path.c_str(), "wb"); SEQ_CHECK(f && fwrite(c.b.data(), 1, n, f) == n && fclose(f) == 0, "harness: cannot write"); }
    Got g = read(c.b, flat, via, path); std::string e = compare(t, g, flat, complete(t, n));
    SEQ_CHECK(e.empty(), "trace of %zu bytes cut at byte %zu, read %s through a %s: %s", t.b.size(), n, flat ? "flat" : "nested", via == FILE_ ? "file" : via == LIVE ? "connection" : "buffer", e.c_str());
    seq::step(); std::string o; for (auto& x : g.events) o += x; seq::state(o + std::to_string(n)); seq::outcome(o);
}
static void in_scratch() { if (chdir(seq::scratch().c_str())) seq::fail("harness: chdir"); }
static void s_prefixes()
{
    in_scratch(); bool sw = seq::choose(2), late = seq::choose(2);
    static Trace t[2][2]; if (t[sw][late].b.empty()) t[sw][late] = build(sw, true, {0, 1, 2, 3, 4, 5, 6, 3, 1, 0}, late);
    size_t n = seq::choose(t[sw][late].b.size() + 1); for (int flat = 0; flat < 2; flat++) for (int v = 0; v < 3; v++) cut(t[sw][late], n, flat, (Via)v);
}
// every sequence of event kinds, cut at every byte of the last event (and at its ends)
static void s_sequences()
{
    in_scratch(); bool sw = seq::choose(2); int len = seq::thorough() ? 4 : 3; std::vector<int> evs; for (int i = 0; i < len; i++) evs.push_back(seq::choose(NK));
    Trace t = build(sw, sw || evs[0] % 2, evs, true); size_t from = t.items[t.items.size() - 2].end;
    for (size_t n = from; n <= t.b.size(); n++) for (int flat = 0; flat < 2; flat++) cut(t, n, flat, (Via)((n + flat) % 3));
}
// a file dump of the real library, cut anywhere: the reference decoder says which events are complete
static void s_dump()
{
    in_scratch(); static Bytes full; static RDec ref; static std::vector<std::string> want[2];
    if (full.empty())
    {
        ht_init(0, nullptr); HT_Timeline* t = ht_timeline_create(128, HT_FALSE, HT_TRUE, nullptr, nullptr); ht_EvMsg_register_event_klass(); ht_EvNums_register_event_klass(); ht_EvDerived2_register_event_klass();
        HT_ErrorCode e; SEQ_CHECK(ht_file_dump_listener_register(t, "full.htdump", 64, &e) && e == HT_ERR_OK, "no listener");
        for (int i = 0; i < 2; i++) { HT_TIMELINE_PUSH_EVENT(t, EvMsg, 1u + i, 2u, "text"); HT_TIMELINE_PUSH_EVENT(t, HT_StringMappingEvent, 7u, "a longer label that needs more than one buffer of the reader"); HT_TIMELINE_PUSH_EVENT(t, HT_Event); }
        HT_DECL_EVENT(EvNums, n); ht_timeline_init_event(t, (HT_Event*)&n); n.i8 = -1; n.u8 = 2; n.i16 = -3; n.u16 = 4; n.i32 = -5; n.u32 = 6; n.i64 = -7; n.u64 = 8; ht_timeline_push_event(t, (HT_Event*)&n);
        ht_timeline_destroy(t); ht_deinit(); full = slurp("full.htdump"); ref.run(full); SEQ_CHECK(ref.error.empty() && ref.good == full.size(), "harness: dump not readable: %s", ref.error.c_str());
        for (int f = 0; f < 2; f++) { Got g = read(full, f); SEQ_CHECK(g.ended && g.events.size() == ref.events.size(), "the whole dump decodes to %zu of %zu events", g.events.size(), ref.events.size()); want[f] = g.events; }
    }
    size_t n = seq::choose(full.size() + 1); Bytes c = full.substr(0, n); FILE* f = fopen("cut.htdump", "wb"); SEQ_CHECK(f && fwrite(c.data(), 1, n, f) == n && fclose(f) == 0, "harness: cannot write");
    size_t k = 0; while (k < ref.events.size() && ref.events[k].off + ref.events[k].len <= n) k++;
    for (int flat = 0; flat < 2; flat++) for (int v = 0; v < 3; v++)
    {
        Got g = read(c, flat, (Via)v, "cut.htdump"); SEQ_CHECK(g.started && g.ended && g.err.empty(), "cut at %zu: not ended or %s", n, g.err.c_str());
        SEQ_CHECK(g.events.size() == k, "dump cut at byte %zu of %zu: %zu events delivered, %zu are complete", n, full.size(), g.events.size(), k);
        for (size_t i = 0; i < k; i++) SEQ_CHECK(g.events[i] == want[flat][i], "dump cut at byte %zu: event %zu is %s instead of %s", n, i, g.events[i].c_str(), want[flat][i].c_str());
        seq::step();
    }
    seq::state(std::to_string(k)); seq::outcome(std::to_string(n));
}
// nothing to read at all: no bytes, no file, or a source that fails to deliver bytes
static void s_nothing()
{
    in_scratch(); bool flat = seq::choose(2); int what = seq::choose(3); Trace t;
    if (what == 0) { cut(t, 0, flat, (Via)seq::choose(3)); return; }
    Got g = read("", flat, FILE_, what == 1 ? "absent.htdump" : ".");
    if (what == 1) SEQ_CHECK(!g.started, "reading a file that does not exist was started"); else SEQ_CHECK((!g.started || g.ended) && g.events.empty(), "a source that cannot be read gave events");
    seq::step(); seq::outcome(std::to_string(what));
}
static const seq::Scenario sc[] = {{"nothing", s_nothing, 0, false}, {"prefixes", s_prefixes, 0, false}, {"sequences", s_sequences, 0, false}, {"dump", s_dump, 0, false}};
int main(int argc, char** argv) { return seq::main(argc, argv, sc, sizeof sc / sizeof *sc); }
