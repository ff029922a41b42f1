// P18: traces through the real client (reader, converter, map files) into a Chrome trace, judged by a strict JSON reader and a reference model.
#include "seq.hpp"
#include "dec.hpp"
#include "json.hpp"
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>
using namespace dec;
int ht_client_main(int, char**);
static Val num(uint64_t v) { Val x; x.n = v; return x; } static Val strv(const std::string& s) { Val x; x.s = s; return x; }
static Klass kCb{"HT_CallstackBaseEvent", 4, nullptr, {{"duration", U64}, {"thread_id", U32}}}, kInt{"HT_CallstackIntEvent", 5, &kCb, {{"label", U64}}}, kStr{"HT_CallstackStringEvent", 6, &kCb, {{"label", STR}}}, kMap{"HT_StringMappingEvent", 7, nullptr, {{"identifier", U64}, {"label", STR}}}, kSys{"HT_SystemInfoEvent", 8, nullptr, {{"version_major", U8}, {"version_minor", U8}, {"version_patch", U8}}},
    kNamed{"Named", 9, nullptr, {{"name", STR}, {"x", I16}}}, kPlain{"Plain", 10, nullptr, {{"v", U8}, {"s", STR}}}, kAll{"All", 11, &kStr, {{"i8", I8}, {"u8", U8}, {"i16", I16}, {"u16", U16}, {"i32", I32}, {"u32", U32}, {"i64", I64}, {"u64", U64}, {"text", STR}, {"more", STR}}}, kBoth{"Both", 12, nullptr, {{"label", STR}, {"name", STR}}}, kNameNum{"NameNum", 13, nullptr, {{"name", U32}}};
static Klass kNum[8]; static const Klass* const common[] = {&kCb, &kInt, &kStr, &kMap, &kSys, &kNamed, &kPlain, &kAll, &kBoth, &kNameNum};
static void describe(Trace& t) { t.byte_order(t.swap); t.announce_head(); for (auto k : common) t.announce(*k); for (int i = 0; i < 8; i++) { kNum[i] = {"Num" + std::to_string(i), 20u + i, nullptr, {{"label", (Kind)i}, {"after", U8}}}; t.announce(kNum[i]); } }
// ---- reference converter ----
struct Span { std::string label; uint64_t ts, dur, tid; std::vector<std::pair<std::string, std::string>> args; };      // args: value as text, strings with a leading quote
struct Ref
{
    std::map<uint64_t, std::string> map; std::vector<Span> out;
    void event(const Ev& e)
    {
        std::vector<const Klass*> ch; for (auto q = e.k; q; q = q->base) ch.insert(ch.begin(), q);
        std::map<std::string, std::pair<Kind, Val>> f; size_t j = 0; for (auto q : ch) for (auto& x : q->fields) f[x.name] = {x.kind, e.vals[j++]};
        if (e.k == &kMap) { map[f["identifier"].second.n] = f["label"].second.s; return; }
        const char* src = f.count("label") ? "label" : f.count("name") ? "name" : nullptr; if (!src) return;
        auto& l = f[src]; std::string label = text(l.first, l.second); if (l.first == STR) label = l.second.s; else if (label[0] != '-' && map.count(std::stoull(label))) label = map[std::stoull(label)];
        if (label.empty()) return;
        Span s{label, e.ts / 1000, f.count("duration") ? f["duration"].second.n / 1000 : 0, f.count("thread_id") ? f["thread_id"].second.n : 0, {}};
        for (auto& x : f) if (x.first != "label" && x.first != "duration" && x.first != "thread_id") s.args.push_back({x.first, x.second.first == STR ? "\"" + x.second.second.s : text(x.second.first, x.second.second)});
        out.push_back(s);
    }
};
static std::string slurp_(const char* p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void spill(const char* p, const Bytes& b) { std::ofstream f(p, std::ios::binary); f << b; f.close(); SEQ_CHECK(f, "harness: cannot write"); }
static void quiet() { static bool done; if (chdir(seq::scratch().c_str())) seq::fail("harness: chdir"); if (!done) { done = true; std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr); } }
static Json convert(const Bytes& b, const char* maps)
{
    spill("in.htdump", b); unlink("out.json");
    std::vector<std::string> a{"client", "--source", "in.htdump", "--output", "out.json", "--format", "chrome-tracing"}; if (maps) { a.push_back("--map"); a.push_back(maps); }
    std::vector<char*> v; for (auto& x : a) v.push_back(&x[0]); v.push_back(nullptr);
    int rc = ht_client_main((int)a.size(), v.data()); SEQ_CHECK(rc == 0, "the client returned %d", rc);
    std::string o = slurp_("out.json"); JsonParser p(o); Json j; SEQ_CHECK(p.document(j), "the output is not JSON: %s", p.err.c_str()); seq::outcome(o); return j;
}
static std::string show(const Span& s) { std::string o = s.label + " at " + std::to_string(s.ts) + "+" + std::to_string(s.dur) + " thread " + std::to_string(s.tid); for (auto& a : s.args) o += " " + a.first + "=" + a.second; return esc(o); }
static void judge(const Json& j, const Ref& r)
{
    const Json* l = j.t == Json::OBJ ? j.get("traceEvents") : j.t == Json::ARR ? &j : nullptr; SEQ_CHECK(l && l->t == Json::ARR, "no list of events in the output");
    for (size_t i = 0; i < r.out.size(); i++)
    {
        const Span& s = r.out[i]; SEQ_CHECK(i < l->a.size(), "span %zu is missing: %s", i, show(s).c_str());
        const Json& e = l->a[i]; SEQ_CHECK(e.t == Json::OBJ, "span %zu is no object", i);
        auto is = [&](const char* k, Json::T t, const std::string& v) { auto x = e.get(k); SEQ_CHECK(x && x->t == t && x->s == v, "span %zu (%s): \"%s\" is %s", i, show(s).c_str(), k, x ? esc(x->s).c_str() : "missing"); };
        is("name", Json::STR, s.label); is("ph", Json::STR, "X"); is("ts", Json::NUM, std::to_string(s.ts)); is("dur", Json::NUM, std::to_string(s.dur)); is("tid", Json::NUM, std::to_string(s.tid));
        auto x = e.get("args"); SEQ_CHECK((x && x->t == Json::OBJ) || (!x && s.args.empty()), "span %zu: no args", i);
        for (auto& a : s.args) { auto v = x->get(a.first.c_str()); bool st = a.second[0] == '"'; SEQ_CHECK(v && v->t == (st ? Json::STR : Json::NUM) && v->s == (st ? a.second.substr(1) : a.second), "span %zu (%s): field %s is %s", i, show(s).c_str(), a.first.c_str(), v ? esc(v->s).c_str() : "missing"); }
        SEQ_CHECK(!x || x->o.size() == s.args.size(), "span %zu (%s) has %zu fields", i, show(s).c_str(), x ? x->o.size() : 0);
    }
    SEQ_CHECK(l->a.size() == r.out.size(), "%zu spans in the output, %zu in the trace", l->a.size(), r.out.size());
}
static void run(const std::vector<Ev>& evs, const char* maps = nullptr, const std::map<uint64_t, std::string>& preset = {}, bool swap = false, size_t cut = ~0ull)
{
    Trace t; t.swap = swap; describe(t); Ref r; r.map = preset; size_t head = t.b.size();
    for (auto& e : evs) { t.event(e); if (cut == ~0ull || t.b.size() <= head + cut) r.event(e); }
    if (cut != ~0ull && head + cut < t.b.size()) t.b.resize(head + cut);
    judge(convert(t.b, maps), r); seq::step(); std::string o; for (auto& s : r.out) o += show(s); seq::state(o);
}
static Ev all(const std::string& label, const std::string& a, const std::string& b, uint64_t v = 5) { return {&kAll, 5000, 1, {num(1), num(2), strv(label), num(v), num(v), num(v), num(v), num(v), num(v), num(v), num(v), strv(a), strv(b)}}; }
// every character in labels, mapped labels, names and string fields
static void s_characters()
{
    quiet(); static const char* const wide[] = {"\xc2\x80", "\xc3\xa4", "\xe2\x82\xac", "\xe2\x80\xa8", "\xf0\x9f\x98\x80", "\xef\xbf\xbf"}; int c = seq::choose(127 + 6); std::string s = c < 127 ? std::string(1, (char)(c + 1)) : wide[c - 127];
    int where = seq::choose(4); if (where == 1) s = "a" + s; if (where == 2) s = s + "b"; if (where == 3) s = "x" + s + s + "y";
    run({all(s, s, ""), {&kStr, 1000, 1, {num(1000), num(3), strv(s)}}, {&kMap, 1, 1, {num(77), strv(s)}}, {&kInt, 2000, 2, {num(1), num(1), num(77)}}, {&kNamed, 9, 9, {strv(s), num(1)}}, {&kBoth, 9, 9, {strv("l"), strv(s)}}});
}
// every short string over the characters that matter to the format
static void s_strings()
{
    quiet(); static const char A[] = {'"', '\\', '\n', '\x01', 'u', '/', '{', ',', '\x7f', 'n'}; int n = seq::choose(seq::thorough() ? 5 : 4); std::string s; for (int i = 0; i < n; i++) s += A[seq::choose(10)];
    run({all(s, s, s), {&kMap, 1, 1, {num(1), strv("m" + s)}}, {&kInt, 1, 1, {num(1), num(1), num(1)}}, {&kNamed, 9, 9, {strv(s), num(1)}}, {&kBoth, 9, 9, {strv(s), strv(s)}}});
}
static const uint64_t B[] = {0, 1, ~0ull, 0x7f, 0x80, 0xff, 0x100, 999, 1000, 1001, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 1999999};
static const int NB = sizeof B / sizeof *B;
static void s_numbers()
{
    quiet(); int what = seq::choose(5); uint64_t v = B[seq::choose(NB)]; bool sw = seq::choose(2); std::vector<Ev> l;
    if (what == 0) l = {all("x", "", "", v)}; else if (what == 1) l = {{&kStr, v, 1, {num(5), num(6), strv("l")}}}; else if (what == 2) l = {{&kStr, 1, v, {num(v), num(6), strv("l")}}}; else if (what == 3) l = {{&kStr, 1, 1, {num(1), num(v & 0xffffffffu), strv("l")}}}; else l = {{&kInt, 1, 1, {num(1), num(1), num(v)}}};
    l.push_back({&kStr, 3, 3, {num(3), num(3), strv("end")}}); run(l, nullptr, {}, sw);
}
// labels of every integer type, with and without a mapping for them
static void s_numeric_labels()
{
    quiet(); Kind k = (Kind)seq::choose(8); uint64_t v = B[seq::choose(NB)]; int mapped = seq::choose(3); unsigned w = width(k); uint64_t m = w < 8 ? (1ull << 8 * w) - 1 : ~0ull; v &= m;
    if (mapped && text(k, num(v))[0] == '-') { seq::discard(); return; }
    std::vector<Ev> l; Ev e{nullptr, 1, 1, {num(v), num(9)}}; spill("m.map", "cat fromfile " + std::to_string(v) + "\n");
    { Trace t; describe(t); } e.k = &kNum[k];
    if (mapped == 1) l.push_back({&kMap, 1, 1, {num(v), strv("mapped")}}); l.push_back(e); l.push_back(e); if (w == 4 && k == U32) l.push_back({&kNameNum, 1, 1, {num(v)}});
    if (mapped == 2) run(l, "m.map", {{v, "fromfile"}}); else run(l);
}
// histories: mappings before, after, repeated, from files; unlabelled and empty ones in between
static void s_histories()
{
    quiet(); int mf = seq::choose(5); spill("a.map", "lua one_file 1\nnative two_file 2\n"); spill("b.map", "x \"q\\uoted 2\nx three_file 3\n"); static const char* arg[] = {nullptr, "a.map", "a.map,b.map", "absent.map,b.map", "b.map,a.map"};
    std::map<uint64_t, std::string> pre; if (mf == 1) pre = {{1, "one_file"}, {2, "two_file"}}; if (mf == 2) pre = {{1, "one_file"}, {2, "\"q\\uoted"}, {3, "three_file"}}; if (mf == 3) pre = {{2, "\"q\\uoted"}, {3, "three_file"}}; if (mf == 4) pre = {{1, "one_file"}, {2, "two_file"}, {3, "three_file"}};
    std::vector<Ev> alpha = {{&kInt, 1000, 1, {num(2000), num(1), num(1)}}, {&kInt, 3000, 1, {num(1), num(2), num(2)}}, {&kMap, 1, 1, {num(1), strv("one")}}, {&kMap, 1, 1, {num(1), strv("uno")}}, {&kMap, 1, 1, {num(2), strv("two")}}, {&kStr, 5, 5, {num(7000), num(4), strv("direct")}}, {&kStr, 5, 5, {num(1), num(1), strv("")}}, {&kPlain, 6, 6, {num(1), strv("text")}}, {&kNamed, 8000, 7, {strv("named"), num(0xffff)}}, {nullptr, 9, 9, {}}};
    int n = seq::thorough() ? 5 : 4; std::vector<Ev> l; for (int i = 0; i < n; i++) { int c = seq::choose(alpha.size() + 1); if (c == (int)alpha.size()) break; l.push_back(alpha[c]); }
    run(l, arg[mf], pre);
}
// the trace ends anywhere; the document is complete all the same
static void s_cut()
{
    quiet(); std::vector<Ev> l{{&kStr, 1000, 1, {num(1), num(1), strv("first")}}, {&kMap, 1, 1, {num(3), strv("mapped \"3\"")}}, {&kInt, 2, 2, {num(2), num(2), num(3)}}, all("big", "a", "b")}; Trace t; describe(t); size_t h = t.b.size(); for (auto& e : l) t.event(e);
    int k = seq::choose((int)(t.b.size() - h + 1)); run(l, nullptr, {}, seq::choose(2), k);
}
static void s_empty() { quiet(); int k = seq::choose(3); Trace t; if (k == 1) t.byte_order(false); if (k == 2) describe(t); judge(convert(t.b, nullptr), Ref()); seq::step(); seq::state(std::to_string(k)); }
static const seq::Scenario sc[] = {{"empty", s_empty, 0, false}, {"characters", s_characters, 0, false}, {"strings", s_strings, 0, false}, {"numbers", s_numbers, 0, false}, {"numeric_labels", s_numeric_labels, 0, false}, {"histories", s_histories, 0, false}, {"cut", s_cut, 0, false}};
int main(int argc, char** argv) { return seq::main(argc, argv, sc, sizeof sc / sizeof *sc); }
