// P05: class registration histories and metadata for all shapes of registries.
#include "seq.hpp"
#include "meta.hpp"
#include <hawktracer/registry.h>
#include <hawktracer/timeline_listener.h>
#include <memory>

static std::vector<Bytes> chunks; static int bad_flag;
static HT_Boolean want_ser;
static void cb(TEventPtr e, size_t n, HT_Boolean ser, void* ud) { chunks.push_back(Bytes((const char*)e, n)); if (ser != want_ser || ud != (void*)&chunks) bad_flag = 1; }
// a class built at run time
struct DynKlass
{
    HT_EventKlass k; MKCREFLECT_TypeInfo ti; std::vector<MKCREFLECT_FieldInfo> f; XKlass x;
    static size_t ser(HT_Event*, HT_Byte*) { return 0; } static size_t sz(HT_Event*) { return 0; }
    DynKlass(const std::string& name, const std::vector<XField>& fields)
    {
        x.name = name; x.fields = fields;
        for (auto& q : x.fields)
        {
            MKCREFLECT_FieldInfo i; memset(&i, 0, sizeof i); i.field_type = q.type.c_str(); i.field_name = q.name.c_str(); i.size = q.size; i.array_size = -1;
            i.is_signed = q.dt == 3; i.data_type = (MKCREFLECT_Types)(q.dt == 99 ? 3 : q.dt); f.push_back(i);
        }
        ti.name = x.name.c_str(); ti.fields_count = f.size(); ti.fields = f.data(); ti.size = ti.packed_size = 64;
        k.type_info = &ti; k.serialize = ser; k.get_size = sz; k.klass_id = HT_INVALID_KLASS_ID;
    }
};
static void check_meta(const std::vector<XKlass>& want, const char* when)
{
    for (int ser = 1; ser >= 0; ser--)
    {
        chunks.clear(); bad_flag = 0; want_ser = ser;
        size_t n = ht_timeline_listener_push_metadata(cb, &chunks, ser);
        size_t total = 0; Bytes all; for (auto& c : chunks) { SEQ_CHECK(!c.empty(), "empty metadata notification"); total += c.size(); all += c; }
        SEQ_CHECK(!bad_flag, "metadata handed over with wrong arguments");
        SEQ_CHECK(n == total, "push_metadata reports %zu bytes, %zu were handed over", n, total);
        if (ser) for (auto& c : chunks) { RDec r; (void)r; }
        std::string e = compare_meta(ser ? read_serialised(all) : read_raw(chunks), want, false);
        SEQ_CHECK(e.empty(), "%s, %s: %s", when, ser ? "serialised" : "raw", e.c_str());
        seq::step();
    }
}
static std::vector<XKlass> core_with_ids()
{
    auto v = core_klasses();
    HT_EventKlass* k[] = {ht_HT_EndiannessInfoEvent_get_event_klass_instance(), ht_HT_Event_get_event_klass_instance(), ht_HT_EventKlassInfoEvent_get_event_klass_instance(), ht_HT_EventKlassFieldInfoEvent_get_event_klass_instance(),
        ht_HT_CallstackBaseEvent_get_event_klass_instance(), ht_HT_CallstackIntEvent_get_event_klass_instance(), ht_HT_CallstackStringEvent_get_event_klass_instance(), ht_HT_StringMappingEvent_get_event_klass_instance(), ht_HT_SystemInfoEvent_get_event_klass_instance()};
    for (size_t i = 0; i < v.size(); i++) { if (i >= 4) v[i].id = k[i]->klass_id; SEQ_CHECK(k[i]->klass_id == v[i].id, "core class %s has identifier %u instead of the documented %u", v[i].name.c_str(), k[i]->klass_id, v[i].id); }
    return v;
}
// all orders and multiplicities
static void s_orders()
{
    ht_init(0, nullptr);
    std::vector<std::unique_ptr<DynKlass>> pool;
    pool.emplace_back(new DynKlass("K0", {{"base", "HT_Event", 1, 24}, {"a", "int8_t", 3, 1}}));
    pool.emplace_back(new DynKlass("K1", {{"base", "K0", 1, 32}, {"b", "uint64_t", 99, 8}, {"c", "const char*", 2, 8}}));
    pool.emplace_back(new DynKlass("K2", {{"base", "HT_Event", 1, 24}}));
    pool.emplace_back(new DynKlass("K10", {{"base", "K1", 1, 24}, {"d", "double", 5, 8}, {"p", "void*", 6, 8}, {"f", "float", 4, 4}}));
    auto want = core_with_ids(); std::vector<uint32_t> id(4, ~0u);
    int depth = seq::thorough() ? 7 : 6;
    for (int d = 0; d < depth; d++)
    {
        int o = seq::choose(6); if (o == 0) break;
        if (o == 5) { int c = seq::choose(3); static HT_EventKlassId (*f[])(void) = {ht_HT_Event_register_event_klass, ht_HT_StringMappingEvent_register_event_klass, ht_HT_EndiannessInfoEvent_register_event_klass}; static const int ix[] = {1, 7, 0};
            seq::note(" register(core %d)", ix[c]); SEQ_CHECK(f[c]() == want[ix[c]].id, "registering a core class again gave another identifier"); }
        else
        {
            seq::note(" register(%s)", pool[o - 1]->x.name.c_str());
            HT_EventKlassId r = ht_registry_register_event_klass(&pool[o - 1]->k);
            SEQ_CHECK(r != HT_INVALID_KLASS_ID && r == pool[o - 1]->k.klass_id, "registration returned %u, the class says %u", r, pool[o - 1]->k.klass_id);
            if (id[o - 1] == ~0u) { for (auto& w : want) SEQ_CHECK(w.id != r, "identifier %u is shared with %s", r, w.name.c_str()); id[o - 1] = r; XKlass x = pool[o - 1]->x; x.id = r; want.push_back(x); }
            else SEQ_CHECK(id[o - 1] == r, "second registration changed the identifier from %u to %u", id[o - 1], r);
        }
        for (int i = 0; i < 4; i++) SEQ_CHECK(pool[i]->k.klass_id == id[i], "identifier of %s changed", pool[i]->x.name.c_str());
        seq::step();
    }
    core_with_ids();
    check_meta(want, "orders");
    Bytes s; for (auto i : id) put(s, i); seq::state(s); seq::outcome(s);
    ht_deinit();
}
// the classes built by the library's own macros
static void s_macro()
{
    ht_init(0, nullptr);
    HT_EventKlassId (*reg[])(void) = {ht_EvTiny_register_event_klass, ht_EvMsg_register_event_klass, ht_EvNums_register_event_klass, ht_EvDerived_register_event_klass, ht_EvDerived2_register_event_klass};
    auto want = core_with_ids(); auto u = user_klasses(); bool done[5] = {};
    for (int i = 0; i < 5; i++)
    {
        int c = seq::choose(6); if (c == 5) break;
        HT_EventKlassId id = reg[c](); SEQ_CHECK(id != HT_INVALID_KLASS_ID, "not registered");
        if (!done[c]) { done[c] = true; XKlass x = u[c]; x.id = id; want.push_back(x); }
    }
    check_meta(want, "macro classes");
    seq::outcome(done, sizeof done); seq::state(done, sizeof done);
    ht_deinit();
}
// number of classes across growth thresholds and chunk limits
static void s_counts()
{
    ht_init(0, nullptr);
    int n = seq::choose(seq::thorough() ? 301 : 121), nf = seq::choose(4);
    seq::note("%d classes with %d fields", n, nf + 1);
    std::vector<std::unique_ptr<DynKlass>> pool; auto want = core_with_ids();
    for (int i = 0; i < n; i++)
    {
        std::vector<XField> f; for (int j = 0; j <= nf; j++) f.push_back({"f" + std::to_string(j), j % 2 ? "int32_t" : "uint16_t", j % 2 ? 3 : 99, (uint64_t)(j % 2 ? 4 : 2)});
        pool.emplace_back(new DynKlass("Klass" + std::to_string(i), f));
        XKlass x = pool.back()->x; x.id = ht_registry_register_event_klass(&pool.back()->k); SEQ_CHECK(x.id != HT_INVALID_KLASS_ID, "not registered"); want.push_back(x);
    }
    core_with_ids();
    check_meta(want, "counts");
    seq::outcome(&n, sizeof n); seq::state(&n, sizeof n);
    ht_deinit();
}
// name lengths sliding every announcement over the chunk limits
static void s_names()
{
    ht_init(0, nullptr);
    static const int extra[] = {1000, 2000, 3000, 4000, 4040, 4041, 4050, 4060, 4061, 4062, 4063, 4064, 4065, 4066, 4067, 4068, 4069, 4070, 4071, 4072, 4073, 4074, 4075, 4080, 4090, 4095, 4096, 4097, 4100, 5000, 9000};
    int step = seq::thorough() ? 1 : 3;
    int c = seq::choose(600 / step + 31); int len = c < 600 / step ? 1 + c * step : extra[c - 600 / step];
    int where = seq::choose(4), copies = seq::thorough() ? 1 + seq::choose(8) : seq::choose(2) ? 7 : 1;
    seq::note("%d classes with a %s of %d characters", copies, where == 0 ? "class name" : where == 1 ? "field name" : where == 2 ? "field type" : "class name and all field names", len);
    std::vector<std::unique_ptr<DynKlass>> pool; auto want = core_with_ids();
    for (int i = 0; i < copies; i++)
    {
        std::string l(len, 'a'); for (int j = 0; j < len; j++) l[j] = 'a' + (j * 7 + i) % 26; l[0] = 'A' + i;
        std::vector<XField> f = {{"base", "HT_Event", 1, 24}, {where == 1 || where == 3 ? l : "fld", where == 2 ? l : "uint8_t", 99, 1}, {where == 3 ? l : "g", "int16_t", 3, 2}};
        pool.emplace_back(new DynKlass(where == 0 || where == 3 ? l : "K" + std::to_string(i), f));
        XKlass x = pool.back()->x; x.id = ht_registry_register_event_klass(&pool.back()->k); want.push_back(x);
    }
    check_meta(want, "names");
    seq::outcome(&len, sizeof len); seq::state(&len, sizeof len);
    ht_deinit();
}
static const seq::Scenario sc[] = {{"orders", s_orders, 0, false}, {"macro_classes", s_macro, 0, false}, {"counts", s_counts, 0, false}, {"name_lengths", s_names, 0, false}};
int main(int argc, char** argv) { return seq::main(argc, argv, sc, 4); }
