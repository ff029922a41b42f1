// P22: damaged traces: every single-byte replacement / removal / insertion and every removal, repetition, swap or cut of whole events, at every position.
#include "seq.hpp"
#include "dec.hpp"
using namespace dec;
static Val num(uint64_t v) { Val x; x.n = v; return x; } static Val strv(const std::string& s) { Val x; x.s = s; return x; }
// class names that differ in one byte, so that a changed byte can turn one into another (also into a class that contains itself)
static Klass kA{"A", 4, nullptr, {{"a", U16}, {"s", STR}}}, kB{"B", 5, &kA, {{"t", STR}, {"b", I32}}}, kC{"C", 6, &kB, {{"c", U64}}}, kE{"E", 7, nullptr, {}};
static Trace make(int which)
{
    Trace t; t.swap = which == 1;
    if (which != 2) t.byte_order(which == 1);
    if (which == 2) t.announce_head();
    t.announce(kA); if (which == 0) t.event({&kA, 10, 11, {num(0x1234), strv("one")}});
    t.announce(kB); t.announce(kC);
    t.event({&kB, 20, 21, {num(1), strv("x"), strv(""), num(0x80000000u)}});
    t.event({&kC, 30, 31, {num(2), strv(""), strv("yy"), num(5), num(~0ull)}});
    if (which == 2) { t.announce(kE); t.event({&kE, 40, 41, {}}); }
    t.event({nullptr, 50, 51, {}}); t.event({&kA, 60, 61, {num(3), strv("abcdefghijklmnopqrstuvwxyz0123456789")}});
    return t;
}
static const Trace& base(int w) { static Trace t[3]; if (t[w].b.empty()) t[w] = make(w); return t[w]; }
static void damaged(const Trace& t, const Bytes& b, size_t at, const char* what)
{
    for (int flat = 0; flat < 2; flat++)
    {
        Got g = read(b, flat, MEM); size_t n = complete(t, at);
        std::string e = compare(t, g, flat, n, false); SEQ_CHECK(e.empty(), "%s at byte %zu of %zu, %s: %s", what, at, t.b.size(), flat ? "flat" : "nested", e.c_str());
        seq::step(); std::string o; for (auto& x : g.events) o += x; seq::state(o); if (!flat) seq::outcome(o);
    }
}
static size_t first_diff(const Bytes& a, const Bytes& b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; return i; }
static void s_replace()
{
    const Trace& t = base(seq::choose(3)); size_t p = seq::choose(t.b.size()); Bytes b = t.b; unsigned char c = b[p];
    std::vector<int> vals; if (seq::thorough()) for (int i = 0; i < 256; i++) vals.push_back(i); else vals = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 'A', 'B', 'C', 'b', 's', 99, 100, 127, 128, 254, 255, c ^ 1, c ^ 0x80, (c + 1) & 255, (c - 1) & 255};
    std::sort(vals.begin(), vals.end()); vals.erase(std::unique(vals.begin(), vals.end()), vals.end());
    int v = vals[seq::choose(vals.size())]; if (v == c) { seq::discard(); return; }
    b[p] = (char)v; damaged(t, b, p, "byte replaced");
}
static void s_insert_remove()
{
    const Trace& t = base(seq::choose(3)); int op = seq::choose(3); size_t p = seq::choose(t.b.size()); Bytes b = t.b; static const char ins[] = {0, 1, 5, 'A', (char)0xff};
    if (op == 0) b.erase(p, 1 + seq::choose(4)); else if (op == 1) b.insert(p, 1, ins[seq::choose(5)]); else { size_t n = 1 + seq::choose(8); b.insert(p, b.substr(p, n)); }
    damaged(t, b, p, op == 0 ? "bytes removed" : op == 1 ? "byte inserted" : "bytes repeated");
}
static void s_tail() { const Trace& t = base(seq::choose(3)); size_t p = seq::choose(t.b.size() + 1); static const char* fill[] = {"\0", "\xff", "\1", "A"}; int f = seq::choose(4), n = seq::choose(3); static const size_t len[] = {1, 64, 5000}; Bytes b = t.b.substr(0, p) + Bytes(len[n], fill[f][0]); damaged(t, b, first_diff(t.b, b), "rest overwritten"); }
static std::vector<Bytes> pieces(const Trace& t) { std::vector<Bytes> v; size_t p = 0; for (auto& i : t.items) { v.push_back(t.b.substr(p, i.end - p)); p = i.end; } return v; }
// sequences of whole-event damage
static void s_events()
{
    const Trace& t = base(seq::choose(3)); auto v = pieces(t); int n = seq::thorough() ? 2 : 1;
    for (int i = 0; i < n; i++)
    {
        int op = seq::choose(4); size_t a = seq::choose(v.size());
        if (op == 0) v.erase(v.begin() + a); else if (op == 1) { size_t c = seq::choose(v.size() + 1); Bytes x = v[a]; v.insert(v.begin() + c, x); } else if (op == 2) { size_t c = seq::choose(v.size()); if (c <= a) { seq::discard(); return; } std::swap(v[a], v[c]); } else { v.erase(v.begin() + a, v.end()); }
        if (v.empty()) break;
    }
    Bytes b; for (auto& x : v) b += x; if (b == t.b) { seq::discard(); return; } damaged(t, b, first_diff(t.b, b), "events removed, repeated or exchanged");
}
// descriptions that no writer produces: any kind and size of field, any struct type (unknown, itself, each other), any class identifier
static void s_descriptions()
{
    Trace t; t.byte_order(false); static const int DT[] = {0, 1, 2, 3, 4, 5, 6, 7, 98, 99, 100, 255}; static const uint64_t SZ[] = {0, 1, 2, 3, 4, 8, 16, 17, ~0ull}; static const char* TY[] = {"HT_Event", "P", "Q", "Zork", "", "HT_EventKlassInfoEvent"}; static const char* NM[] = {"base", "f", "timestamp", "klass_id", ""}; static const uint32_t ID[] = {0, 1, 2, 3, 4, 5, 77, 0xffffffffu};
    t.klass_info(4, "P", 2); t.klass_info(5, "Q", 1); t.field_info(4, "HT_Event", "base", 24, 1); t.field_info(5, "P", "base", 24, 1);
    size_t good = t.b.size(); int n = seq::thorough() ? 1 + seq::choose(2) : 1;
    for (int i = 0; i < n; i++)
    {
        uint32_t id = i ? 4 + seq::choose(2) : ID[seq::choose(8)]; int dt = seq::choose(12); const char* nm = NM[seq::choose(i ? 2 : 5)];
        if (DT[dt] == 1) t.field_info(id, TY[seq::choose(6)], nm, 24, 1); else if (i == 0) t.field_info(id, "t", nm, SZ[seq::choose(9)], DT[dt]); else t.field_info(id, "t", nm, 4, DT[dt]);
    }
    static const uint32_t EV[] = {0, 1, 2, 3, 4, 5, 77, 0xffffffffu};
    Bytes b = t.b; for (uint32_t k : {5u, 4u, EV[seq::choose(8)], 4u, 1u}) { b += ref_head(k, 9, 9); for (int i = 0; i < 12; i++) b += (char)(i % 3 ? i : 0); }
    damaged(t, b, good, "odd description");
}
static const seq::Scenario sc[] = {{"replace", s_replace, 0, false}, {"insert_remove", s_insert_remove, 0, false}, {"tail", s_tail, 0, false}, {"events", s_events, 0, false}, {"descriptions", s_descriptions, 0, false}};
int main(int argc, char** argv) { return seq::main(argc, argv, sc, sizeof sc / sizeof *sc); }
