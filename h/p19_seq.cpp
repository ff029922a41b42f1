// P19: forests of spans through the real client into callgrind files, compared with the calling contexts of the forest.
#include "seq.hpp"
#include "dec.hpp"
#include <dirent.h>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <unistd.h>
using namespace dec;
int ht_client_main(int, char**);
static Val num(uint64_t v) { Val x; x.n = v; return x; } static Val strv(const std::string& s) { Val x; x.s = s; return x; }
static Klass kCb{"HT_CallstackBaseEvent", 4, nullptr, {{"duration", U64}, {"thread_id", U32}}}, kInt{"HT_CallstackIntEvent", 5, &kCb, {{"label", U64}}}, kStr{"HT_CallstackStringEvent", 6, &kCb, {{"label", STR}}}, kMap{"HT_StringMappingEvent", 7, nullptr, {{"identifier", U64}, {"label", STR}}}, kPlain{"Plain", 10, nullptr, {{"v", U8}}};
struct Span { uint64_t start, stop; std::string label; int parent; uint32_t tid; };      // in order of their start (parents first)
typedef std::vector<Span> Forest;
// reference: calling context -> self time, and per callee calls and inclusive time
struct Ctx { uint64_t self = 0; std::map<std::string, std::pair<uint64_t, uint64_t>> callees; bool operator==(const Ctx& o) const { return self == o.self && callees == o.callees; } };
typedef std::map<std::string, Ctx> Profile;
static std::string name_of(const Forest& f, int i) { std::string s; for (; i >= 0; i = f[i].parent) s += (s.empty() ? "" : "'") + f[i].label + "()"; return s; }
static std::map<uint32_t, Profile> reference(const Forest& f)
{
    std::map<uint32_t, Profile> r;
    for (size_t i = 0; i < f.size(); i++)
    {
        uint64_t incl = f[i].stop - f[i].start; Profile& p = r[f[i].tid]; p[name_of(f, i)].self += incl;
        if (f[i].parent >= 0) { Ctx& c = p[name_of(f, f[i].parent)]; c.self -= incl; auto& k = c.callees[name_of(f, i)]; k.first++; k.second += incl; }
    }
    return r;
}
static Profile parse(const std::string& path)
{
    std::ifstream f(path); SEQ_CHECK(f.is_open(), "no output file %s", path.c_str()); Profile p; std::string l, fn, cfn; uint64_t calls = 0; bool ev = false;
    while (std::getline(f, l))
    {
        if (l.empty() || l[0] == '#') continue;
        if (!l.compare(0, 7, "events:")) ev = true; else if (!l.compare(0, 3, "fn=")) { SEQ_CHECK(ev, "costs before the list of event types"); fn = l.substr(3); p[fn]; } else if (!l.compare(0, 4, "cfn=")) cfn = l.substr(4);
        else if (!l.compare(0, 6, "calls=")) { SEQ_CHECK(!cfn.empty(), "calls without callee"); calls = std::stoull(l.substr(6)); SEQ_CHECK(std::getline(f, l), "calls without cost"); uint64_t line, cost; std::stringstream s(l); SEQ_CHECK(bool(s >> line >> cost), "bad cost line %s", l.c_str()); auto& k = p[fn].callees[cfn]; k.first += calls; k.second += cost; cfn.clear(); }
        else if (l[0] >= '0' && l[0] <= '9') { SEQ_CHECK(!fn.empty(), "cost without function"); uint64_t line, cost; std::stringstream s(l); SEQ_CHECK(bool(s >> line >> cost), "bad cost line %s", l.c_str()); p[fn].self += cost; }
        else SEQ_CHECK(l.find(':') != std::string::npos, "unexpected line %s", l.c_str());
    }
    SEQ_CHECK(f.eof(), "unreadable output"); return p;
}
static std::string show(const Profile& p) { std::string o; for (auto& x : p) { o += x.first + " self " + std::to_string((long long)x.second.self); for (auto& c : x.second.callees) o += " [" + c.first + " x" + std::to_string(c.second.first) + " " + std::to_string((long long)c.second.second) + "]"; o += "; "; } return o; }
static std::string show(const Forest& f, const std::vector<int>& order) { std::string o; for (int i : order) o += f[i].label + "(" + std::to_string(f[i].start) + "-" + std::to_string(f[i].stop) + ")t" + std::to_string(f[i].tid) + " "; return o; }
static void convert_and_judge(const Forest& f, const std::vector<int>& order, bool mapped = false)
{
    static bool done; if (chdir(seq::scratch().c_str())) seq::fail("harness: chdir"); if (!done) { done = true; std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr); }
    Trace t; t.byte_order(false); t.announce_head(); for (auto k : {&kCb, &kInt, &kStr, &kMap, &kPlain}) t.announce(*k);
    if (mapped) { t.event({&kMap, 1, 1, {num(65), strv("A")}}); t.event({&kMap, 1, 1, {num(66), strv("B")}}); }
    t.event({&kPlain, 3, 3, {num(1)}});
    for (int i : order) if (mapped) t.event({&kInt, f[i].start, 1, {num(f[i].stop - f[i].start), num(f[i].tid), num(f[i].label[0])}}); else t.event({&kStr, f[i].start, 1, {num(f[i].stop - f[i].start), num(f[i].tid), strv(f[i].label)}});
    { std::ofstream o("in.htdump", std::ios::binary); o << t.b; }
    auto list = [] { std::set<std::string> s; DIR* d = opendir("."); while (auto e = readdir(d)) if (!strncmp(e->d_name, "cg.", 3)) s.insert(e->d_name); closedir(d); return s; };
    for (auto& x : list()) unlink(x.c_str());
    const char* a[] = {"client", "--source", "in.htdump", "--output", "cg", "--format", "callgrind", nullptr}; std::vector<std::string> st; std::vector<char*> v; for (int i = 0; a[i]; i++) st.push_back(a[i]); for (auto& x : st) v.push_back(&x[0]); v.push_back(nullptr);
    int rc = ht_client_main(7, v.data()); SEQ_CHECK(rc == 0, "the client returned %d", rc);
    auto want = reference(f); auto files = list(); std::set<std::string> exp; for (auto& w : want) exp.insert("cg." + std::to_string(w.first)); SEQ_CHECK(files == exp, "%zu thread files instead of %zu", files.size(), exp.size());
    for (auto& w : want) { Profile g = parse("cg." + std::to_string(w.first)); SEQ_CHECK(g == w.second, "spans in order of arrival: %s; thread %u: expected %s got %s", show(f, order).c_str(), w.first, show(w.second).c_str(), show(g).c_str()); seq::state(show(g)); }
    seq::step(); seq::outcome(show(f, order));
}
// is the nesting a consequence of the intervals alone?  equal: some ancestor and descendant with different labels are equal
static bool determined(const Forest& f, bool& equal)
{
    equal = false;
    for (size_t i = 0; i < f.size(); i++) for (size_t j = i + 1; j < f.size(); j++)
    {
        if (f[i].tid != f[j].tid) continue;
        bool anc = false; for (int k = f[j].parent; k >= 0; k = f[k].parent) anc |= k == (int)i;
        bool ij = f[i].start <= f[j].start && f[j].stop <= f[i].stop, ji = f[j].start <= f[i].start && f[i].stop <= f[j].stop;
        if (!anc && (ij || ji)) return false;
        if (anc && ji && f[i].label != f[j].label) equal = true;
    }
    return true;
}
// one thread's stack machine: every forest of n spans, every label, every way of standing still in between
static bool grow(Forest& f, std::vector<int>& completion, int n, int labels, uint32_t tid, uint64_t base, uint64_t unit)
{
    uint64_t now = base; std::vector<int> open; int made = 0; size_t first = f.size();
    while (made < n || !open.empty())
    {
        bool o = made < n && (open.empty() || seq::choose(2)); if (f.size() + completion.size() > 2 * first) now += unit * seq::choose(2);
        if (o) { f.push_back({now, 0, std::string(1, (char)('A' + seq::choose(labels))), open.empty() ? -1 : open.back(), tid}); open.push_back(f.size() - 1); made++; }
        else { f[open.back()].stop = now; completion.push_back(open.back()); open.pop_back(); }
    }
    return true;
}
static void s_completion()
{
    int n = 1 + seq::choose(seq::thorough() ? 5 : 4); bool m = n < 3 && seq::choose(2); Forest f; std::vector<int> c; grow(f, c, n, 2, 3, 1000, 10); bool eq; if (!determined(f, eq)) { seq::discard(); return; } convert_and_judge(f, c, m);
}
// deeper, one label only: recursion
static void s_recursive() { int n = seq::thorough() ? 7 : 5; Forest f; std::vector<int> c; grow(f, c, n, 1, 3, 1000, 10); bool eq; if (!determined(f, eq)) { seq::discard(); return; } convert_and_judge(f, c); }
// any order of arrival
static void s_arrival()
{
    int n = 2 + seq::choose(seq::thorough() ? 3 : 2); Forest f; std::vector<int> c; grow(f, c, n, n < (seq::thorough() ? 5 : 4) ? 2 : 1, 3, 1000, 10); bool eq; if (!determined(f, eq) || eq) { seq::discard(); return; }
    std::vector<int> left, order; for (int i = 0; i < n; i++) left.push_back(i); while (!left.empty()) { int k = seq::choose(left.size()); order.push_back(left[k]); left.erase(left.begin() + k); } convert_and_judge(f, order);
}
// more spans than any small-array special case of sorting: children of one parent in reverse / rotated / completion order, sharing its start or end
static void s_wide()
{
    int n = seq::choose(40) + 1, shape = seq::choose(4), ord = seq::choose(3); Forest f; std::vector<int> c; f.push_back({1000, 1000 + 10ull * n, "P", -1, 1});
    for (int i = 0; i < n; i++) { uint64_t s = 1000 + 10ull * i; f.push_back({s, s + 10, std::string(1, (char)('A' + i % 3)), 0, 1}); if (shape & 1) f.push_back({s, s + 4, "S", (int)f.size() - 1, 1}); if (shape & 2) f.push_back({s + 6, s + 10, "E", (int)f.size() - 1 - (shape & 1), 1}); }
    for (int i = 1; i < (int)f.size(); i++) c.push_back(i); c.push_back(0); std::vector<int> o = c;
    if (ord != 0) o = std::vector<int>(c.rbegin(), c.rend()); if (ord == 2) std::rotate(o.begin(), o.begin() + o.size() / 2, o.end());
    bool eq; SEQ_CHECK(determined(f, eq), "harness: ambiguous"); if (eq) { if (ord) { seq::discard(); return; } std::sort(o.begin(), o.end(), [&](int a, int b) { return f[a].stop != f[b].stop ? f[a].stop < f[b].stop : a > b; }); } convert_and_judge(f, o);
}
// threads never mix: two forests at the same times, merged in every way
static void s_threads()
{
    Forest f; std::vector<int> c, a, b; static const uint32_t ids[] = {0, 1, 7, 0xffffffffu}; uint32_t t1 = ids[seq::choose(2)], t2 = ids[2 + seq::choose(2)]; int n1 = 1 + seq::choose(2), n2 = 1 + seq::choose(2);
    grow(f, c, n1, 1, t1, 1000, 10); size_t k = f.size(); grow(f, c, n2, 1, t2, 1000, 10); for (int i : c) (i < (int)k ? a : b).push_back(i); bool eq; if (!determined(f, eq)) { seq::discard(); return; }
    std::vector<int> o; size_t x = 0, y = 0; while (x < a.size() || y < b.size()) { bool first = x < a.size() && (y == b.size() || seq::choose(2)); o.push_back(first ? a[x++] : b[y++]); } convert_and_judge(f, o);
}
// extreme clocks and durations
static void s_values()
{
    static const uint64_t base[] = {0, 1ull << 63, ~0ull - 400, 0xffffffffull - 15, 0x7fffffffffffffffull - 15}, unit[] = {1, 10, 100}; uint64_t b = base[seq::choose(5)], u = unit[seq::choose(3)]; if (seq::choose(2) && b < (1ull << 40)) u = 1ull << 40; Forest f; std::vector<int> c; grow(f, c, 2, 2, 3, b, u); bool eq; if (!determined(f, eq)) { seq::discard(); return; } convert_and_judge(f, c);
}
static const seq::Scenario sc[] = {{"completion", s_completion, 0, false}, {"recursive", s_recursive, 0, false}, {"arrival", s_arrival, 0, false}, {"wide", s_wide, 0, false}, {"threads", s_threads, 0, false}, {"values", s_values, 0, false}};
int main(int argc, char** argv) { return seq::main(argc, argv, sc, sizeof sc / sizeof *sc); }
