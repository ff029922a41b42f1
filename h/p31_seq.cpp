// P31: the class register tells exactly the classes and fields announced so far, whatever the order of announcements.
#include "seq.hpp"
#include "dec.hpp"
#include <sanitizer/allocator_interface.h>
using namespace dec;
static size_t live() { return __sanitizer_get_current_allocated_bytes(); }
enum { STRUCT_ = 1, STRING_ = 2, INT_ = 3, PTR_ = 6, UINT_ = 99 };      // data_type of a field

// ---- the model: what was announced ----
struct MField { std::string name, type; uint64_t size; int dt; long klass; };    // klass: the class its type names, if that was known then
struct MKlass { std::string name; std::vector<MField> fields; };
struct Model
{
    std::map<uint32_t, MKlass> k; bool bad = false;
    Model()
    {
        k[1].name = "HT_Event"; k[0].name = "HT_EndiannessInfoEvent"; k[2].name = "HT_EventKlassInfoEvent"; k[3].name = "HT_EventKlassFieldInfoEvent";
        auto f = [&](uint32_t id, const char* n, const char* t, uint64_t s, int d) { k[id].fields.push_back({n, t, s, d, -1}); };
        f(1, "klass_id", "uint32_t", 4, UINT_); f(1, "timestamp", "uint64_t", 8, UINT_); f(1, "id", "uint64_t", 8, UINT_); f(0, "endianness", "uint8_t", 1, UINT_);
        f(2, "info_klass_id", "uint32_t", 4, UINT_); f(2, "event_klass_name", "const char*", 8, STRING_); f(2, "field_count", "uint8_t", 1, UINT_);
        f(3, "info_klass_id", "uint32_t", 4, UINT_); f(3, "field_type", "const char*", 8, STRING_); f(3, "field_name", "const char*", 8, STRING_); f(3, "size", "uint64_t", 8, UINT_); f(3, "data_type", "uint8_t", 1, UINT_);
    }
    std::vector<uint32_t> named(const std::string& n) const { std::vector<uint32_t> r; for (auto& x : k) if (x.second.name == n) r.push_back(x.first); return r; }
    bool contains(uint32_t a, uint32_t id) const { if (a == id) return true; for (auto& f : k.at(a).fields) if (f.klass >= 0 && contains(f.klass, id)) return true; return false; }
    void klass(uint32_t id, const std::string& n) { if (!k.count(id)) k[id].name = n; }
    void field(uint32_t id, const std::string& t, const std::string& n, uint64_t s, int d)
    {
        if (id >= 1 && id <= 3) return;
        if (!k.count(id)) { bad = true; return; }
        long c = -1;
        if (d == STRUCT_) { auto v = named(t); if (!v.empty()) c = v[0]; if (c >= 0 && contains(c, id)) { bad = true; return; } }
        else if (d == INT_ || d == UINT_) { if (s != 1 && s != 2 && s != 4 && s != 8) { bad = true; return; } }
        else if (d != STRING_ && d != PTR_) { bad = true; return; }
        for (auto& f : k[id].fields) if (f.name == n) return;
        k[id].fields.push_back({n, t, s, d, c});
    }
};
// every field with this name that a search through the struct fields can meet; sure: one of them is met whatever the order of announcements
static void reachable(const Model& m, uint32_t id, const std::string& n, std::vector<std::pair<uint32_t, size_t>>& all, bool& sure, bool certain)
{
    auto& f = m.k.at(id).fields;
    for (size_t i = 0; i < f.size(); i++)
    {
        if (f[i].name == n) { all.push_back({id, i}); if (certain) sure = true; }
        if (f[i].dt != STRUCT_) continue;
        if (f[i].klass >= 0) reachable(m, f[i].klass, n, all, sure, certain);
        else for (auto k : m.named(f[i].type)) if (!m.contains(k, id)) reachable(m, k, n, all, sure, false);   // a type announced later may be known or not
    }
}
static FieldTypeId type_of(const MField& f)
{
    if (f.dt == STRUCT_) return FieldTypeId::STRUCT; if (f.dt == STRING_) return FieldTypeId::STRING; if (f.dt == PTR_) return FieldTypeId::POINTER;
    int w = f.size == 1 ? 0 : f.size == 2 ? 1 : f.size == 4 ? 2 : 3; static const FieldTypeId u[] = {FieldTypeId::UINT8, FieldTypeId::UINT16, FieldTypeId::UINT32, FieldTypeId::UINT64}, s[] = {FieldTypeId::INT8, FieldTypeId::INT16, FieldTypeId::INT32, FieldTypeId::INT64};
    return f.dt == UINT_ ? u[w] : s[w];
}
static std::vector<std::string> names;       // field names asked for
static std::map<uint32_t, std::shared_ptr<const EventKlass>> seen;      // objects handed out before
static void compare_klass(const Model& m, uint32_t id, const EventKlass& k)
{
    auto& w = m.k.at(id);
    SEQ_CHECK(k.get_id() == id && k.get_name() == w.name, "class %u is %s#%u instead of %s", id, k.get_name().c_str(), k.get_id(), w.name.c_str());
    auto f = k.get_fields(); SEQ_CHECK(f.size() == w.fields.size(), "class %u has %zu fields instead of %zu", id, f.size(), w.fields.size());
    for (size_t i = 0; i < f.size(); i++)
    {
        auto& x = w.fields[i]; auto& g = *f[i];
        SEQ_CHECK(g.get_name() == x.name && g.get_type_name() == x.type, "field %zu of class %u is %s %s instead of %s %s", i, id, g.get_type_name().c_str(), g.get_name().c_str(), x.type.c_str(), x.name.c_str());
        SEQ_CHECK(g.get_type_id() == type_of(x), "field %s of class %u has type %d instead of %d", x.name.c_str(), id, (int)g.get_type_id(), (int)type_of(x));
        bool num = x.dt == INT_ || x.dt == UINT_; SEQ_CHECK(g.is_numeric() == num, "is_numeric() of field %s of class %u", x.name.c_str(), id);
        if (num || x.dt == PTR_) SEQ_CHECK(g.get_sizeof() == (num ? x.size : 8), "get_sizeof() of field %s of class %u is %zu", x.name.c_str(), id, g.get_sizeof());
        auto c = g.get_klass();
        if (x.klass >= 0) SEQ_CHECK(c && c->get_name() == x.type, "field %s of class %u does not know its class %s", x.name.c_str(), id, x.type.c_str());
        else SEQ_CHECK(!c || (x.dt == STRUCT_ && c->get_name() == x.type), "field %s of class %u has a class", x.name.c_str(), id);
        auto own = k.get_field(x.name.c_str(), false); SEQ_CHECK(own.get() == f[i].get(), "get_field(%s) of class %u is another field", x.name.c_str(), id);
    }
}
static void check(const KlassRegister& kr, const Model& m)
{
    auto all = kr.get_klasses(); SEQ_CHECK(all.size() == m.k.size(), "the register has %zu classes instead of %zu", all.size(), m.k.size());
    for (auto& x : m.k)
    {
        SEQ_CHECK(kr.klass_exists(x.first), "class %u does not exist", x.first); auto k = kr.get_klass(x.first); SEQ_CHECK(k != nullptr, "class %u is not found", x.first);
        SEQ_CHECK(all.count(x.first) && all[x.first] == k, "get_klasses() has another class %u", x.first); compare_klass(m, x.first, *k);
        auto& s = seen[x.first]; if (s) SEQ_CHECK(s == k, "class %u became another object", x.first); s = k;
        auto ids = m.named(x.second.name); uint32_t id = kr.get_klass_id(x.second.name); SEQ_CHECK(std::count(ids.begin(), ids.end(), id), "get_klass_id(%s) is %u", x.second.name.c_str(), id);
        auto n = kr.get_klass(x.second.name); SEQ_CHECK(n && n->get_id() == id && n->get_name() == x.second.name, "get_klass(%s) is another class", x.second.name.c_str());
        for (auto& q : names)
        {
            std::vector<std::pair<uint32_t, size_t>> r; bool sure = false, own = false; reachable(m, x.first, q, r, sure, true);
            for (auto& f : x.second.fields) own |= f.name == q;
            auto o = k->get_field(q.c_str(), false); SEQ_CHECK((o != nullptr) == own, "get_field(%s) of class %u: %s", q.c_str(), x.first, own ? "not found" : "found");
            auto g = k->get_field(q.c_str(), true);
            if (!g) { SEQ_CHECK(!sure, "get_field(%s) with inherited fields of class %u: not found", q.c_str(), x.first); continue; }
            bool ok = false; for (auto& c : r) ok |= kr.get_klass(c.first)->get_fields().at(c.second).get() == g.get();
            SEQ_CHECK(ok, "get_field(%s) with inherited fields of class %u: another field (%s)", q.c_str(), x.first, g->get_name().c_str());
        }
    }
    for (uint32_t id : {4u, 999u, 0x7fffffffu, 0xfffffffeu}) if (!m.k.count(id)) SEQ_CHECK(!kr.klass_exists(id) && !kr.get_klass(id), "there is a class %u", id);
    for (auto n : {"", "nobody", "HT_Even", "HT_Event "}) if (m.named(n).empty()) SEQ_CHECK(!kr.get_klass(n) && kr.get_klass_id(n) == HT_INVALID_KLASS_ID, "there is a class \"%s\"", n);
}
// ---- reading: after each announcement the register is asked everything ----
struct Step { bool klass; uint32_t id; std::string name, type; uint64_t size; int dt; };
static std::map<std::string, bool> dummy;
static void run(const std::vector<Step>& steps, bool big, bool flat, const std::vector<std::string>& ask)
{
    static bool warm; std::string h; h.reserve(1 << 16); size_t m0, m1;       // what is allocated once per process is allocated in the first round
    for (int round = warm ? 1 : 0; round < 2; round++)
    {
        m0 = live();
        {
            Trace t; t.swap = big; t.byte_order(big); for (auto& s : steps) if (s.klass) t.klass_info(s.id, s.name, 0); else t.field_info(s.id, s.type, s.name, s.size, s.dt);
            names = ask; Model m; size_t at = 0, done = 0; bool over = false; seen.clear(); std::vector<std::shared_ptr<const EventKlass>> kept;
            {
                KlassRegister kr; check(kr, m);
                ProtocolReader rd(&kr, std::unique_ptr<Stream>(new MemStream(t.b, false)), flat);
                rd.register_events_listener([&](const Event& e) {
                    uint32_t id = e.get_klass()->get_id(); if (id == 0) { check(kr, m); return; }
                    SEQ_CHECK(at < steps.size() && id == (steps[at].klass ? 2u : 3u), "announcement %zu is delivered as class %u", at, id);
                    auto& s = steps[at++]; if (s.klass) m.klass(s.id, s.name); else m.field(s.id, s.type, s.name, s.size, s.dt);
                    if (m.bad) over = true; if (!over) { check(kr, m); done++; } });
                SEQ_CHECK(rd.start(), "the reader does not start"); rd.wait_for_complete(); rd.stop();
                if (!over) { SEQ_CHECK(done == steps.size(), "%zu of %zu announcements arrived", done, steps.size()); check(kr, m); for (auto& x : m.k) kept.push_back(kr.get_klass(x.first)); }
                else check(kr, m);     // a description that makes no sense leaves the classes before it alone
            }
            seen.clear(); for (auto& k : kept) compare_klass(m, k->get_id(), *k);    // classes outlive the register
            if (round == 1) for (auto& x : m.k) { h += std::to_string(x.first) + x.second.name + "("; for (auto& f : x.second.fields) h += f.type + " " + f.name + ","; h += ")"; }
        }
        names.clear(); names.shrink_to_fit(); m1 = live(); warm = true;
    }
    SEQ_CHECK(m0 == m1, "%zd bytes are still allocated when the register is gone", (ssize_t)(m1 - m0)); seq::step(); seq::state(h); seq::outcome(h);
}
static bool makes_sense(const std::vector<Step>& st) { Model m; for (auto& s : st) if (s.klass) m.klass(s.id, s.name); else m.field(s.id, s.type, s.name, s.size, s.dt); return !m.bad; }
static Step K(uint32_t id, const std::string& n) { return {true, id, n, "", 0, 0}; }
static Step F(uint32_t id, const std::string& t, const std::string& n, uint64_t s, int d) { return {false, id, n, t, s, d}; }
// every sequence of announcements of three classes whose fields are numbers, strings, one another, the event head and a class nobody announces
static void s_orders()
{
    int depth = seq::thorough() ? 5 : 4; std::vector<Step> st; seq::note(" ");
    for (int i = 0; i < depth; i++)
    {
        if (!makes_sense(st)) break;      // nothing is said about what follows a description that makes no sense
        int c = seq::choose(3 + 1 + 3 * 7 + 1 + 1); if (c == 26) break; static const char* n[] = {"A", "B", "C"};
        if (c < 3) { st.push_back(K(10 + c, n[c])); seq::note("class %s; ", n[c]); continue; }
        if (c == 3) { st.push_back(K(13, "A")); seq::note("another class A; "); continue; }
        if (c == 25) { st.push_back(F(1, "uint8_t", "f", 1, UINT_)); continue; }
        c -= 4; int k = c / 7; c %= 7;
        static const char* ty[] = {"uint8_t", "const char*", "A", "B", "C", "HT_Event", "int32_t"}, * fn[] = {"f", "f", "a", "b", "c", "base", "g"}; static const int dt[] = {UINT_, STRING_, STRUCT_, STRUCT_, STRUCT_, STRUCT_, INT_}, sz[] = {1, 8, 24, 24, 24, 24, 4};
        st.push_back(F(10 + k, ty[c], fn[c], sz[c], dt[c])); seq::note("%s %s.%s; ", ty[c], n[k], fn[c]);
    }
    run(st, false, true, {"f", "g", "a", "timestamp", "nothing"});
}
// the same, with the three classes there already (in any order)
static void s_fields()
{
    static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; int depth = seq::thorough() ? 5 : 4, p = seq::choose(seq::thorough() ? 6 : 2) * (seq::thorough() ? 1 : 5); std::vector<Step> st; seq::note(" ");
    static const char* n[] = {"A", "B", "C"}; for (int i : perm[p]) st.push_back(K(10 + i, n[i]));
    for (int i = 0; i < depth; i++)
    {
        if (!makes_sense(st)) break;
        int c = seq::choose(3 * 6 + 1); if (c == 18) break; int k = c / 6; c %= 6;
        static const char* ty[] = {"uint64_t", "A", "B", "C", "Missing", "int16_t"}, * fn[] = {"f", "a", "b", "c", "m", "f"}; static const int dt[] = {UINT_, STRUCT_, STRUCT_, STRUCT_, STRUCT_, INT_}, sz[] = {8, 24, 24, 24, 24, 2};
        st.push_back(F(10 + k, ty[c], fn[c], sz[c], dt[c])); seq::note("%s %s.%s; ", ty[c], n[k], fn[c]);
    }
    run(st, false, false, {"f", "a", "b", "c", "m"});
}
// every kind of a field with every size, in both byte orders
static void s_types()
{
    int dt = seq::choose(256), s = seq::choose(13); static const uint64_t sz[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 255, 1ull << 32, ~0ull}; bool big = seq::choose(2), flat = seq::choose(2); seq::note("type %d size %llu; ", dt, (unsigned long long)sz[s]);
    run({K(20, "Before"), F(20, "int16_t", "x", 2, INT_), K(21, "It"), F(21, "T", "y", sz[s], dt), F(21, "uint8_t", "z", 1, UINT_), K(22, "After")}, big, flat, {"x", "y", "z"});
}
// many classes and fields, in a chain or side by side, and the base classes first or last
static void s_many()
{
    int n = seq::choose(seq::thorough() ? 121 : 41), f = seq::choose(4), shape = seq::choose(4); seq::note("%d classes, %d fields, shape %d; ", n, f, shape); std::vector<Step> st; static const int many[] = {0, 1, 5, 40};
    auto nm = [](int i) { return "Class" + std::to_string(i); };
    auto one = [&](int i) { st.push_back(K(100 + i, nm(i))); if (shape & 1) st.push_back(F(100 + i, i ? nm(i - 1) : "HT_Event", "base", 24, STRUCT_)); if (i % 10 == 0) for (int j = 0; j < many[f]; j++) st.push_back(F(100 + i, "int8_t", "f" + std::to_string(i) + "_" + std::to_string(j), 1, INT_)); };
    if (shape & 2) for (int i = n; i-- > 0;) one(i); else for (int i = 0; i < n; i++) one(i);
    if (st.size() > 60) { std::vector<Step> rest; run(st, false, true, {"timestamp"}); return; }
    run(st, false, true, {"f0_0", "f10_0", "timestamp"});
}
// names are compared as a whole, whatever they hold; identifiers are 32 bits
static void s_names()
{
    static const char* nm[] = {"", "A", "a", "AA", "A ", "A\n", "\xc3\xa9", "A::B<C>", "HT_Event2", "base", "HT_CallstackBaseEvent", "nothing"}; static const uint32_t ids[] = {4, 5, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000u, 0xfffffffdu};
    int a = seq::choose(12), b = seq::choose(12), i = seq::choose(9), j = seq::choose(9); if (i == j || a == b) { seq::discard(); return; }
    run({K(ids[i], nm[a]), K(ids[j], nm[b]), F(ids[i], "uint8_t", nm[b], 1, UINT_), F(ids[j], nm[a], nm[a], 24, STRUCT_), F(ids[j], nm[b], "x", 2, INT_)}, false, true, {nm[a], nm[b], "x"});
}
static void s_well_known()
{
    static const uint32_t ids[] = {0, 1, 2, 3, 4, 5, 255, 256, 257, 258, 259, 0x10001, 0xfffffffe, 0xffffffff}; uint32_t id = ids[seq::choose(14)];
    if (id) SEQ_CHECK(KlassRegister::is_well_known_klass(id) == (id >= 1 && id <= 3), "is_well_known_klass(%u)", id);
    seq::step(); seq::state(std::to_string(id)); seq::outcome(std::to_string(id));
}
int main(int argc, char** argv)
{
    static const seq::Scenario s[] = {{"orders", s_orders, 0, false}, {"fields", s_fields, 0, false}, {"types", s_types, 0, false}, {"many", s_many, 0, false}, {"names", s_names, 0, false}, {"well_known", s_well_known, 0, false}};
    return seq::main(argc, argv, s, sizeof s / sizeof s[0]);
}
