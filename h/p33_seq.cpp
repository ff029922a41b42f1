// P33: the debug listener prints every event it is given, with every field and value, and counts the events of each class.
#include "seq.hpp"
#include "dec.hpp"
#include <hawktracer/parser/debug_event_listener.hpp>
#include <iostream>
#include <sstream>
using namespace dec;

// ---- what has to be printed: lines of one event in any order, the parts of a nested event below their field ----
struct Line { std::string head, value; std::vector<std::string> other; bool part = false; std::vector<Line> below; };
typedef std::vector<Line> Lines;
struct Shown { std::string name; Lines lines; };
static Line leaf(const std::string& type, const std::string& name, const std::string& v) { Line l; l.head = type + " " + name + ": "; l.value = v; return l; }
static Line leaf(const Field& f, const Val& v) { return leaf(ctype(f.kind), f.name, f.kind == STR ? v.s : text(f.kind, v)); }
static void head_lines(Lines& o, uint32_t klass, uint64_t ts, uint64_t id) { o.push_back(leaf("uint32_t", "klass_id", std::to_string(klass))); o.push_back(leaf("uint64_t", "timestamp", std::to_string(ts))); o.push_back(leaf("uint64_t", "id", std::to_string(id))); }
static Lines lines_of(const Klass* k, const Ev& e, bool flat)
{
    Lines o; if (!k) { head_lines(o, e.k ? e.k->id : 1, e.ts, e.id); return o; }
    Lines b = lines_of(k->base, e, flat);
    if (flat) o = b; else { Line l; l.head = (k->base ? k->base->name : std::string("HT_Event")) + " base: "; l.part = true; l.below = b; o.push_back(l); }
    size_t at = nfields(k->base); for (size_t i = 0; i < k->fields.size(); i++) o.push_back(leaf(k->fields[i], e.vals[at + i]));
    return o;
}
static bool match(const std::string& s, size_t p, const Lines& l, std::vector<bool>& used, size_t left, size_t indent, size_t& end, const std::function<bool(size_t)>& rest);
static bool match_one(const std::string& s, size_t p, const Line& x, size_t indent, const std::function<bool(size_t)>& rest)
{
    std::string h = std::string(indent, ' ') + x.head; if (s.compare(p, h.size(), h) != 0) return false; p += h.size();
    if (x.part) { if (s.compare(p, 1, "\n") != 0) return false; std::vector<bool> u(x.below.size()); size_t e; return match(s, p + 1, x.below, u, u.size(), indent + 2, e, rest); }
    if (s.compare(p, x.value.size() + 1, x.value + "\n") == 0 && rest(p + x.value.size() + 1)) return true;
    for (auto& v : x.other) if (s.compare(p, v.size() + 1, v + "\n") == 0 && rest(p + v.size() + 1)) return true;
    return false;
}
static bool match(const std::string& s, size_t p, const Lines& l, std::vector<bool>& used, size_t left, size_t indent, size_t& end, const std::function<bool(size_t)>& rest)
{
    if (!left) { end = p; return rest(p); }
    for (size_t i = 0; i < l.size(); i++)
    {
        if (used[i]) continue; used[i] = true;
        if (match_one(s, p, l[i], indent, [&](size_t q) { return match(s, q, l, used, left - 1, indent, end, rest); })) return true;
        used[i] = false;
    }
    return false;
}
static bool shows(const std::string& s, const Shown& w) { std::string h = "\n" + w.name + "\n"; if (s.compare(0, h.size(), h) != 0) return false; std::vector<bool> u(w.lines.size()); size_t e; return match(s, h.size(), w.lines, u, u.size(), 2, e, [&](size_t q) { return q == s.size(); }); }
static std::string wanted(const Lines& l, size_t in = 2) { std::string o; for (auto& x : l) o += std::string(in, ' ') + x.head + x.value + "\n" + wanted(x.below, in + 2); return o; }
// ---- std::cout, caught ----
struct Caught
{
    std::ostringstream o; std::streambuf* was; Caught() : was(std::cout.rdbuf(o.rdbuf())) {} ~Caught() { std::cout.rdbuf(was); }
    std::string take() { std::string s = o.str(); o.str(""); SEQ_CHECK(std::cout.good(), "the output stream is broken"); return s; }
};
static void check_shown(const std::string& s, const Shown& w) { SEQ_CHECK(shows(s, w), "printed %s instead of %s", esc(s).c_str(), esc("\n" + w.name + "\n" + wanted(w.lines)).c_str()); }
static void check_stats(const DebugEventListener& d, Caught& c, const std::map<std::string, size_t>& m)
{
    c.take(); d.print_statistics(); std::string s = c.take(), f = "Statistics: \n"; SEQ_CHECK(s.compare(0, f.size(), f) == 0, "the statistics start with %s", esc(s).c_str());
    size_t total = 0; Lines l; for (auto& x : m) { total += x.second; Line y; y.head = x.first + ": "; y.value = std::to_string(x.second); l.push_back(y); }
    std::string t = "Total number of events: " + std::to_string(total) + "\n"; std::vector<bool> u(l.size()); size_t e;
    SEQ_CHECK(match(s, f.size(), l, u, u.size(), 2, e, [&](size_t q) { return s.compare(q, std::string::npos, t) == 0; }), "the statistics are %s instead of %s and %zu in all", esc(s).c_str(), esc(wanted(l)).c_str(), total);
}
static void finish(const std::string& h) { seq::step(); seq::state(h); seq::outcome(h.size() > 200 ? std::to_string(std::hash<std::string>()(h)) : h); }
static Klass A{"A", 20, nullptr, {{"n", U8}}}, B{"B", 21, &A, {{"s", STR}, {"m", I8}}}, C{"C::D<E>", 22, &B, {{"l", I64}, {"u", U16}}}, N{"Nothing", 23, nullptr, {}}, S{"S", 24, nullptr, {{"a", STR}, {"b", STR}}};
static const Klass* const kl[] = {nullptr, &A, &B, &C, &N, &S};
static Val num(uint64_t v) { Val x; x.n = v; return x; } static Val strv(const std::string& s) { Val x; x.s = s; return x; }
static std::string kname(const Klass* k) { return k ? k->name : "HT_Event"; }
static Ev event(const Klass* k, unsigned i)
{
    static const uint64_t nums[] = {10, 0, 200, 255, 65, ~0ull, 1ull << 63}; static const char* strs[] = {"text", "", "two words", "a: b", "line\n  more", "\xff%d"};
    Ev e{k, 1000 + i, i, {}}; std::vector<const Klass*> c; for (; k; k = k->base) c.insert(c.begin(), k); unsigned j = i;
    for (auto x : c) for (auto& f : x->fields) { if (f.kind == STR) e.vals.push_back(strv(strs[j++ % 6])); else e.vals.push_back(num(nums[j++ % 7])); }
    return e;
}
// every value of a small field, the corners of wide ones, strings of all kinds of characters, pointers
static void s_values()
{
    int t = seq::choose(10); std::ostringstream o; Caught c; FieldType v = {}; std::string want; std::vector<std::string> other;
    static const FieldTypeId ty[] = {FieldTypeId::UINT8, FieldTypeId::INT8, FieldTypeId::UINT16, FieldTypeId::INT16, FieldTypeId::UINT32, FieldTypeId::INT32, FieldTypeId::UINT64, FieldTypeId::INT64, FieldTypeId::STRING, FieldTypeId::POINTER};
    if (t < 8)
    {
        uint64_t n = 0; if (t < 2) n = seq::choose(256); else if (t < 4) { static const uint8_t hi[] = {0, 1, 0x7f, 0x80, 0xff, 0x0a, 0x30, 0xc3}; int b = seq::choose(seq::thorough() ? 256 : 8); n = (uint64_t)(seq::thorough() ? b : hi[b]) << 8 | seq::choose(256); }
        else { int bit = seq::choose(t < 6 ? 32 : 64), d = seq::choose(4); n = d == 3 ? 0 - (1ull << bit) : (1ull << bit) + d - 1; }
        n &= t < 6 ? (1ull << (8 << t / 2)) - 1 : ~0ull; memcpy(&v, &n, 8); want = text((Kind)t, num(n));
    }
    else if (t == 8) { static const char al[] = {'a', ' ', '\n', ':', '%', '\xff', '\\', '0'}; int len = seq::choose(seq::thorough() ? 5 : 4); for (int i = 0; i < len; i++) want += al[seq::choose(8)]; if (seq::choose(2)) want = std::string(seq::thorough() ? 70000 : 5000, 'x') + want; v.f_STRING = strdup(want.c_str()); }
    else { static const uintptr_t p[] = {0, 1, 0x10, 0xabcdef, 0x7fffffffffff, ~(uintptr_t)0}; v.f_POINTER = (void*)p[seq::choose(6)]; char h[40]; snprintf(h, 40, "0x%zx", (size_t)v.f_POINTER); want = h; if (!v.f_POINTER) other = {"0", "(nil)", "nil", "nullptr"}; }
    bool second = seq::choose(2); seq::note("type %d value %s; ", t, esc(want.substr(0, 40)).c_str());
    auto k = std::make_shared<EventKlass>("K", 30); k->add_field(std::unique_ptr<EventKlassField>(new EventKlassField("f", "T*", ty[t]))); if (second) k->add_field(std::unique_ptr<EventKlassField>(new EventKlassField("g", "U", FieldTypeId::INT8)));
    Shown w{"K", {leaf("T*", "f", want)}}; w.lines[0].other = other; Event e(k); e.set_value(k->get_fields()[0].get(), v);
    if (second) { FieldType x = {}; x.f_INT8 = -7; e.set_value(k->get_fields()[1].get(), x); w.lines.push_back(leaf("U", "g", "-7")); }
    DebugEventListener d; d(e); check_shown(c.take(), w); d(e); check_shown(c.take(), w); check_stats(d, c, {{"K", 2}}); finish(std::to_string(t) + "=" + want.substr(0, 100));
}
// every sequence of events of six classes, read from a trace in both modes and both byte orders
static void s_traces()
{
    int n = seq::choose(seq::thorough() ? 6 : 5); bool flat = seq::choose(2), big = n < 4 && seq::choose(2); std::vector<Ev> ev; Trace t; t.swap = big; t.byte_order(big); t.announce_head(); for (auto k : kl) if (k) t.announce(*k);
    for (int i = 0; i < n; i++) { ev.push_back(event(kl[seq::choose(6)], i)); t.event(ev.back()); seq::note("%s ", kname(ev.back().k).c_str()); }
    Caught c; DebugEventListener d, other; std::map<std::string, size_t> m; size_t at = 0, all = 0; std::string h = flat ? "f" : "n"; KlassRegister kr;
    {
        ProtocolReader r(&kr, std::unique_ptr<Stream>(new MemStream(t.b, false)), flat); std::function<void(const Event&)> f = std::ref(d); r.register_events_listener(std::ref(d));
        r.register_events_listener([&](const Event& e) {
            std::string s = c.take(), k = e.get_klass()->get_name(); m[k]++; all++; SEQ_CHECK(!s.empty(), "an event of %s is not printed", k.c_str());
            if (e.get_klass()->get_id() == 0 || e.get_klass()->get_id() == 2 || e.get_klass()->get_id() == 3) { SEQ_CHECK(s.compare(0, k.size() + 2, "\n" + k + "\n") == 0, "an event of %s is printed as %s", k.c_str(), esc(s).c_str()); if (k == "HT_EndiannessInfoEvent") SEQ_CHECK(s.find("  uint8_t endianness: " + std::string(big ? "1" : "0") + "\n") != s.npos, "the byte order is printed as %s", esc(s).c_str()); return; }
            SEQ_CHECK(at < ev.size(), "event %zu of %zu", at, ev.size()); auto& x = ev[at++]; check_shown(s, Shown{kname(x.k), lines_of(x.k, x, flat)}); h += s; });
        SEQ_CHECK(r.start(), "the reader does not start"); r.wait_for_complete(); r.stop();
    }
    SEQ_CHECK(at == ev.size() && all == t.items.size(), "%zu of %zu events were printed", at, ev.size()); SEQ_CHECK(c.take().empty(), "something is printed after the last event");
    check_stats(d, c, m); check_stats(other, c, {}); finish(h);
}
// every history of two listeners: events of three classes, statistics and a copy of the listener
static void s_counts()
{
    int depth = seq::thorough() ? 8 : 6; Caught c; std::vector<DebugEventListener> d(2); std::map<std::string, size_t> m[2]; static const char* nm[] = {"K", "K ", ""}; std::string h; seq::note(" ");
    std::shared_ptr<EventKlass> k[3]; for (int i = 0; i < 3; i++) { k[i] = std::make_shared<EventKlass>(nm[i], 10 + i); k[i]->add_field(std::unique_ptr<EventKlassField>(new EventKlassField("f", "uint8_t", FieldTypeId::UINT8))); }
    for (int i = 0; i < depth; i++)
    {
        int op = seq::choose(7); if (op == 6) break; int w = op & 1, what = op / 2; h += (char)('a' + op); seq::note("%c", 'a' + op);
        if (what < 2) { Event e(k[what + (i & 1)]); FieldType v = {}; v.f_UINT8 = i; e.set_value(k[what + (i & 1)]->get_fields()[0].get(), v); d[w](e); m[w][nm[what + (i & 1)]]++; check_shown(c.take(), Shown{nm[what + (i & 1)], {leaf("uint8_t", "f", std::to_string(i))}}); }
        else check_stats(d[w], c, m[w]);
    }
    for (int w = 0; w < 2; w++) check_stats(d[w], c, m[w]); DebugEventListener e(d[0]); check_stats(e, c, m[0]); finish(h);
}
// many events of many classes: nothing is forgotten
static void s_many()
{
    int classes = 1 + seq::choose(seq::thorough() ? 300 : 40), each = 1 + seq::choose(4); Caught c; DebugEventListener d; std::map<std::string, size_t> m; static const int rep[] = {0, 1, 3, 300, 70000}; seq::note("%d classes, %d; ", classes, rep[each]); if (rep[each] * classes > 70000) { seq::discard(); return; }
    for (int i = 0; i < classes; i++)
    {
        auto k = std::make_shared<EventKlass>("Class" + std::to_string(i), 10 + i); Event e(k); for (int j = 0; j < rep[each]; j++) { d(e); if (j % 100 == 0) check_shown(c.take(), Shown{"Class" + std::to_string(i), {}}); else c.take(); } m["Class" + std::to_string(i)] = rep[each];
    }
    check_stats(d, c, m); finish(std::to_string(classes) + "x" + std::to_string(rep[each]));
}
// parts within parts, to any depth
static void s_nested()
{
    int depth = seq::choose(seq::thorough() ? 40 : 13), width = 1 + seq::choose(3), where = seq::choose(3); if (width > 1 && depth > 4) { seq::discard(); return; } seq::note("depth %d width %d; ", depth, width); Caught c; Lines w; std::shared_ptr<EventKlass> k; std::vector<std::shared_ptr<EventKlass>> keep;
    std::function<Event(int, Lines&)> make = [&](int left, Lines& l) -> Event {
        auto kk = std::make_shared<EventKlass>("L" + std::to_string(left), 100 + left); keep.push_back(kk); auto num_ = [&](const char* n) { kk->add_field(std::unique_ptr<EventKlassField>(new EventKlassField(n, "int16_t", FieldTypeId::INT16))); };
        if (where & 1) num_("before"); if (left) for (int i = 0; i < width; i++) kk->add_field(std::unique_ptr<EventKlassField>(new EventKlassField("part" + std::to_string(i), "L" + std::to_string(left - 1), FieldTypeId::STRUCT, nullptr))); if (where & 2) num_("after");
        Event e(kk); int at = 0; for (auto& f : kk->get_fields()) { FieldType v = {}; if (f->get_type_id() == FieldTypeId::STRUCT) { Line x; x.head = f->get_type_name() + " " + f->get_name() + ": "; x.part = true; v.f_EVENT = new Event(make(left - 1, x.below)); l.push_back(x); } else { v.f_INT16 = -left - at++; l.push_back(leaf("int16_t", f->get_name(), std::to_string(v.f_INT16))); } e.set_value(f.get(), v); }
        return e; };
    Event e = make(depth, w); DebugEventListener d; d(e); std::string s = c.take(); check_shown(s, Shown{"L" + std::to_string(depth), w}); check_stats(d, c, {{"L" + std::to_string(depth), 1}}); finish(s);
}
int main(int argc, char** argv)
{
    static const seq::Scenario s[] = {{"values", s_values, 0, false}, {"traces", s_traces, 0, false}, {"counts", s_counts, 0, false}, {"nested", s_nested, 0, false}, {"many", s_many, 0, false}};
    return seq::main(argc, argv, s, sizeof s / sizeof s[0]);
}
