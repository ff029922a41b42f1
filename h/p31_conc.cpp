// P31: the register is asked by other threads while the reader adds classes and fields to it.
#include "conc.h"
#include "dec.hpp"
#include <thread>
using namespace dec;
struct S : Stream
{
    Bytes d; size_t p = 0; S(Bytes b) : d(std::move(b)) {}
    bool start() override { p = 0; return true; } void stop() override {}
    int read_byte() override { return p < d.size() ? (unsigned char)d[p++] : -1; }
    bool read_data(char* b, size_t n) override { if (n > d.size() - p) { p = d.size(); return false; } memcpy(b, d.data() + p, n); p += n; return true; }
    bool is_continuous() override { return false; }
};
static const char* const fields[] = {"base", "one", "two"};
struct View { int classes = 4, a = -1, b = -1; };        // how many fields of A and B (-1: no such class)
static void prefix(const std::vector<std::shared_ptr<EventKlassField>>& f, int& n, const char* who)
{
    if ((int)f.size() < n) mc_fail("%s has %zu fields after it had %d", who, f.size(), n); n = (int)f.size();
    if (n > 3) mc_fail("%s has %d fields", who, n);
    for (int i = 0; i < n; i++) if (!f[i] || f[i]->get_name() != fields[i]) mc_fail("field %d of %s is another one", i, who);
}
// what one thread asks; the answers may only grow
static void ask(const KlassRegister& kr, int how, View& v)
{
    if (how == 0)
    {
        auto a = kr.get_klass(20); if (!a && v.a >= 0) mc_fail("class 20 has gone"); if (!a) return; if (v.a < 0) v.a = 0; if (a->get_name() != "A") mc_fail("class 20 has another name"); prefix(a->get_fields(), v.a, "A");
    }
    else if (how == 1)
    {
        auto b = kr.get_klass("B"); if (!b && v.b >= 0) mc_fail("class B has gone"); if (!b) return; if (v.b < 0) v.b = 0; if (b->get_id() != 21) mc_fail("B has another identifier");
        int before = v.b; auto two = b->get_field("two", false); if (!two && before == 3) mc_fail("field two of B is not found"); auto ts = b->get_field("timestamp", true); if (!ts && before >= 1) mc_fail("the inherited field of B is not found");
        prefix(b->get_fields(), v.b, "B"); if (two && v.b != 3) mc_fail("field two of B was there and has gone"); if (ts && v.b < 1) mc_fail("the base of B was there and has gone");
    }
    else
    {
        auto all = kr.get_klasses(); if ((int)all.size() < v.classes) mc_fail("there were %d classes and now %zu", v.classes, all.size()); v.classes = (int)all.size();
        for (auto& k : all) { if (!k.second || k.second->get_id() != k.first) mc_fail("class %u is wrong", k.first); if (k.first == 20) { if (v.a < 0) v.a = 0; prefix(k.second->get_fields(), v.a, "A"); } if (k.first == 21) { if (v.b < 0) v.b = 0; prefix(k.second->get_fields(), v.b, "B"); } }
        bool e = kr.klass_exists(20); if (!e && v.a >= 0) mc_fail("class 20 does not exist any more"); if (kr.get_klass_id("B") != 21 && v.b >= 0) mc_fail("get_klass_id(B)");
    }
}
static void asking(int threads, int h1, int h2, int times, bool again)
{
    size_t heap = mc_heap_live();
    {
        Trace t; t.byte_order(false); t.klass_info(20, "A", 3); t.field_info(20, "HT_Event", "base", 24, 1); t.field_info(20, "uint8_t", "one", 1, 99);
        if (threads == 1) t.field_info(20, "const char*", "two", 8, 2);
        t.klass_info(21, "B", 3); t.field_info(21, "A", "base", 48, 1); t.field_info(21, "int16_t", "one", 2, 3);
        if (threads == 1) t.field_info(21, "uint32_t", "two", 4, 99);
        View v[2];
        {
            KlassRegister kr; ProtocolReader r(&kr, std::unique_ptr<Stream>(new S(t.b)), true); if (!r.start()) mc_fail("start failed");
            { std::vector<std::thread> th; if (threads == 2) th.emplace_back([&] { for (int i = 0; i < times; i++) ask(kr, h2, v[1]); });
              for (int i = 0; i < times; i++) ask(kr, h1, v[0]);
              for (auto& x : th) x.join(); }
            r.wait_for_complete(); if (again) r.stop();
            View e; for (int how = 0; how < 3; how++) ask(kr, how, e);
            int want = threads == 1 ? 3 : 2; if (e.classes != 6 || e.a != want || e.b != want) mc_fail("in the end there are %d classes, %d and %d fields", e.classes, e.a, e.b);
        }
        mc_outcome(v, sizeof v);
    }
    if (mc_live_threads() != 1) mc_fail("a thread is left"); if (mc_heap_live() != heap) mc_fail("memory leaked");
}
// the register has classes already, and grows by some more (its tables are rebuilt at some sizes)
static void growing(int how)
{
    size_t heap = mc_heap_live();
    {
        int pre = mc_choose_free(4) + 6, n = 2; Trace t, u; t.byte_order(false); u.byte_order(false); for (int i = 0; i < pre; i++) t.klass_info(100 + i, "P" + std::to_string(i), 0); for (int i = 0; i < n; i++) u.klass_info(200 + i, "N" + std::to_string(i), 0);
        KlassRegister kr; { ProtocolReader r(&kr, std::unique_ptr<Stream>(new S(t.b)), true); if (!r.start()) mc_fail("start failed"); r.wait_for_complete(); }
        ProtocolReader r(&kr, std::unique_ptr<Stream>(new S(u.b)), true); int before = 4 + pre, last = before; if (!r.start()) mc_fail("start failed");
        if (how == 0) for (int i = 0; i < 2; i++)
        {
            auto all = kr.get_klasses(); if ((int)all.size() < last) mc_fail("there were %d classes and now %zu", last, all.size()); last = (int)all.size();
            for (int k = 0; k < pre; k++) { auto x = all.find(100 + k); if (x == all.end() || !x->second || x->second->get_id() != 100u + k) mc_fail("class %d has gone", 100 + k); }
        }
        else for (int i = 0; i < 2; i++)
        {
            int k = i ? pre - 1 : 0; if (!kr.klass_exists(100 + k)) mc_fail("class %d does not exist any more", 100 + k); auto x = kr.get_klass(100 + k); if (!x || x->get_id() != 100u + k) mc_fail("class %d is not found", 100 + k);
            std::string nm = "P" + std::to_string(k); if (kr.get_klass_id(nm) != 100u + k) mc_fail("the identifier of %s is not found", nm.c_str()); if (kr.get_klass(nm) != x) mc_fail("%s is not found", nm.c_str());
        }
        r.wait_for_complete(); r.stop(); if ((int)kr.get_klasses().size() != before + n) mc_fail("in the end there are %zu classes", kr.get_klasses().size()); mc_outcome(&last, sizeof last);
    }
    if (mc_live_threads() != 1) mc_fail("a thread is left"); if (mc_heap_live() != heap) mc_fail("memory leaked");
}
static void s_grow_all() { growing(0); }
static void s_grow() { growing(1); }
static void s_by_id() { asking(1, 0, 0, 2, true); }
static void s_by_name() { asking(1, 1, 0, 2, true); }
static void s_all() { asking(1, 2, 0, 2, true); }
static void s_two() { asking(2, 0, 1, 1, false); }
static void s_two_all() { asking(2, 2, 1, 1, false); }
int main(int argc, char** argv)
{
    static const McScenario s[] = {{"by_id", s_by_id, 3, 4, 0, 0, 0, 0}, {"by_name", s_by_name, 3, 4, 0, 0, 0, 0}, {"all", s_all, 2, 4, 0, 0, 0, 0}, {"grow_all", s_grow_all, 2, 3, 0, 0, 0, 0}, {"grow", s_grow, 2, 3, 0, 0, 0, 0}, {"two", s_two, 2, 3, 0, 0, 0, 0}, {"two_all", s_two_all, 2, 3, 0, 0, 0, 0}};
    return mc_conc_main(argc, argv, s, sizeof s / sizeof s[0]);
}
