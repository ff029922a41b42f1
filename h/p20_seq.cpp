// P20: histories of initialise / uninitialise / use.
#include "seq.hpp"
#include "refdec.hpp"
#include <hawktracer/feature_callstack.h>
#include <hawktracer/listeners/file_dump_listener.h>
#include <hawktracer/posix_mapped_tracepoint.h>

static const char* core[] = {"HT_EndiannessInfoEvent", "HT_Event", "HT_EventKlassInfoEvent", "HT_EventKlassFieldInfoEvent", "HT_CallstackBaseEvent", "HT_CallstackIntEvent", "HT_CallstackStringEvent", "HT_StringMappingEvent", "HT_SystemInfoEvent"};
static unsigned nfile;
struct Dump { HT_Timeline* t = nullptr; std::string path; std::vector<std::pair<std::string, std::string>> want; bool user; };
static bool user_reg; static unsigned lab;

static void open(Dump& d, const char* set)
{
    HT_ErrorCode e = HT_ERR_UNKNOWN;
    d.t = ht_timeline_create(100, HT_FALSE, HT_TRUE, set, &e);
    SEQ_CHECK(d.t && e == HT_ERR_OK, "timeline not created (error %d)", e);
    SEQ_CHECK(ht_feature_callstack_enable(d.t) == HT_ERR_OK, "callstack feature cannot be enabled");
    SEQ_CHECK(ht_feature_cached_string_enable(d.t, HT_FALSE) == HT_ERR_OK, "cached-string feature cannot be enabled");
    d.path = seq::scratch() + "/d" + std::to_string(nfile++ % 16); d.want.clear(); d.user = user_reg;
    SEQ_CHECK(ht_file_dump_listener_register(d.t, d.path.c_str(), 64, &e) && e == HT_ERR_OK, "file listener not registered (error %d)", e);
}
static void use(Dump& d)
{
    std::string l = "label" + std::to_string(lab++);
    ht_feature_callstack_start_string(d.t, l.c_str()); ht_feature_callstack_stop(d.t);
    d.want.push_back({"HT_CallstackStringEvent", l});
    std::string m = "map" + std::to_string(lab++);
    ht_feature_cached_string_add_mapping_dynamic(d.t, m.c_str());
    d.want.push_back({"HT_StringMappingEvent", m});
    if (d.user) { push_msg(d.t, Msg{1, 2, 3, lab, "user" + l}); d.want.push_back({"EvMsg", "user" + l}); }
}
static void close(Dump& d)
{
    ht_timeline_destroy(d.t); d.t = nullptr;
}
static void verify(const Dump& d)
{
    Bytes b = slurp(d.path); RDec r; r.run(b);
    SEQ_CHECK(r.error.empty(), "dump cannot be decoded: %s", r.error.c_str());
    SEQ_CHECK(r.good == b.size(), "dump has %zu undecodable trailing bytes", b.size() - r.good);
    SEQ_CHECK(!r.events.empty() && r.events[0].klass == 0, "dump does not start with the byte order");
    for (const char* c : core) { int n = 0; for (auto& k : r.klasses) n += k.second.name == c; SEQ_CHECK(n == 1, "class %s is described %d times in the dump", c, n); }
    if (d.user) { int n = 0; for (auto& k : r.klasses) n += k.second.name == "EvMsg"; SEQ_CHECK(n == 1, "user class is described %d times in the dump", n); }
    size_t i = 0;
    for (auto& e : r.events)
    {
        if (e.meta || e.name == "HT_SystemInfoEvent") continue;
        SEQ_CHECK(i < d.want.size(), "unexpected event %s in the dump", e.name.c_str());
        std::string l = e.name == "EvMsg" ? e.str("text") : e.str("label");
        SEQ_CHECK(e.name == d.want[i].first && l == d.want[i].second, "event %zu of the dump is %s '%s', expected %s '%s'", i, e.name.c_str(), l.c_str(), d.want[i].first.c_str(), d.want[i].second.c_str());
        i++;
    }
    SEQ_CHECK(i == d.want.size(), "dump holds %zu of %zu events", i, d.want.size());
}
static void histories(int depth, bool longlived)
{
    int count = 0; user_reg = false; lab = 0; Dump keep; bool orphan = false;
    for (int d = 0; d < depth; d++)
    {
        struct O { int k; }; std::vector<int> ops{0, 1, 2};
        if (count > 0) { ops.push_back(3); ops.push_back(4); if (longlived && !keep.t) ops.push_back(5); }
        if (keep.t) { if (!orphan) ops.push_back(6); ops.push_back(7); }
        int o = ops[seq::choose(ops.size())];
        if (o == 0) break;
        if (o == 1)
        {
            seq::note(" init"); int before = count++;
            char a0[] = "prog", a1[] = "--foreign"; char* av[] = {a0, a1, nullptr};
            if (before % 2) ht_init(2, av); else ht_init(0, nullptr);
        }
        else if (o == 2) { seq::note(" deinit"); if (count > 0 && --count == 0) { user_reg = false; orphan = true; } ht_deinit(); }
        else if (o == 3) { seq::note(" register"); HT_EventKlassId a = ht_EvMsg_register_event_klass(); SEQ_CHECK(a != HT_INVALID_KLASS_ID && a == ht_EvMsg_register_event_klass(), "user class got no stable identifier"); user_reg = true; }
        else if (o == 4)
        {
            Dump x; bool named = d % 2; seq::note(named ? " use(named)" : " use");
            open(x, named ? "set" : nullptr); use(x);
            if (named) { ht_timeline_flush(x.t); ht_timeline_unregister_all_listeners(x.t); verify(x); close(x); }
            else { close(x); verify(x); }
        }
        else if (o == 5) { seq::note(" open"); open(keep, nullptr); orphan = false; }
        else if (o == 6) { seq::note(" trace"); use(keep); }
        else { seq::note(" close"); close(keep); verify(keep); }
        SEQ_CHECK((ht_is_initialized() != 0) == (count > 0), "after %d outstanding initialisations the library says it is %sinitialised", count, ht_is_initialized() ? "" : "not ");
        seq::step();
        Bytes st; put(st, count); put(st, user_reg); put(st, keep.t != nullptr); put(st, keep.want.size()); put(st, d); seq::state(st);
    }
    if (keep.t) { close(keep); verify(keep); }
    Bytes o; put(o, count); put(o, user_reg); put(o, lab); seq::outcome(o);
    while (count > 0) { ht_deinit(); count--; }
    SEQ_CHECK(!ht_is_initialized(), "still initialised in the end");
}
static void s_hist() { histories(seq::thorough() ? 8 : 6, false); }
static void s_long() { histories(seq::thorough() ? 8 : 6, true); }
static const seq::Scenario sc[] = {{"histories", s_hist, 0, false}, {"long_lived_timeline", s_long, 0, false}};
int main(int argc, char** argv) { return seq::main(argc, argv, sc, 2); }
