// P06: histories of a file-dump listener, with the on-disk content inspected after every operation (= every crash point).
#include "seq.hpp"
#include "meta.hpp"
#include <hawktracer/listeners/file_dump_listener.h>
#include <memory>

static std::vector<std::unique_ptr<std::string>> keep;
static const char* keepstr(const std::string& s) { keep.emplace_back(new std::string(s)); return keep.back()->c_str(); }
static uint64_t nid;
// builds one event: raw struct bytes and serialised bytes
static void make(int shape, Bytes& raw, Bytes& ser)
{
    uint64_t id = nid++, ts = 100 + id * 3;
    if (shape == 0) { EvTiny e; memset(&e, 0, sizeof e); e.base.klass = ht_EvTiny_get_event_klass_instance(); e.base.timestamp = ts; e.base.id = id; e.v = id; raw.append((char*)&e, sizeof e); ser += ref_head(e.base.klass->klass_id, ts, id); put(ser, e.v); }
    else
    {
        EvMsg e; memset(&e, 0, sizeof e); e.base.klass = ht_EvMsg_get_event_klass_instance(); e.base.timestamp = ts; e.base.id = id; e.who = id; e.seq = shape;
        size_t n = shape == 1 ? 5 : 150; std::string s(n, 'm'); for (size_t i = 0; i < n; i++) s[i] = 'a' + (i + id) % 26; e.text = keepstr(s);
        raw.append((char*)&e, sizeof e); ser += ref_head(e.base.klass->klass_id, ts, id); put(ser, e.who); put(ser, e.seq); puts0(ser, e.text);
    }
}
static void once() { static bool d = false; if (d) return; d = true; ht_init(0, nullptr); ht_EvTiny_register_event_klass(); ht_EvMsg_register_event_klass(); }
static std::vector<XKlass> want_meta() { auto v = core_klasses(); auto u = user_klasses(); v.push_back(u[0]); v.push_back(u[1]); return v; }
struct Snap { Bytes content; size_t must; std::string op; };
static void finish(const Bytes& final, const Bytes& E, const std::vector<Snap>& snaps, bool learn)
{
    SEQ_CHECK(final.size() >= E.size() && final.compare(final.size() - E.size(), E.size(), E) == 0, "the finished file does not end with exactly the accepted events (%zu bytes expected): %s", E.size(), hexs(final.size() > 60 ? final.substr(final.size() - 60) : final, 60).c_str());
    size_t m = final.size() - E.size();
    static std::map<size_t, bool> seen;
    Bytes meta = final.substr(0, m);
    if (learn) { std::string e = compare_meta(read_serialised(meta), want_meta(), false); SEQ_CHECK(e.empty(), "the file does not start with complete metadata: %s", e.c_str()); }
    else { RDec r; r.run(meta); SEQ_CHECK(r.error.empty() && r.good == m && !r.events.empty() && r.events[0].klass == 0 && r.klasses.size() == 11, "the file does not start with complete metadata"); for (auto& e : r.events) SEQ_CHECK(e.meta || e.name == "HT_SystemInfoEvent", "an event is in the file twice"); }
    for (auto& s : snaps)
    {
        SEQ_CHECK(final.compare(0, s.content.size(), s.content) == 0, "after %s the file was not a prefix of the final sequence", s.op.c_str());
        SEQ_CHECK(s.content.size() >= (s.must ? m + s.must - 1 : 0), "after %s the file held %zu of %zu bytes delivered so far", s.op.c_str(), s.content.size(), m + s.must - 1);
    }
}
// via: 0 listener callback directly, 1 through a timeline
static void history(size_t bufsize, int depth, bool allow_raw, int via)
{
    once(); keep.clear(); nid = 1;
    std::string path = seq::scratch() + "/dump";
    HT_ErrorCode err = HT_ERR_UNKNOWN; HT_Timeline* t = nullptr; HT_FileDumpListener* l;
    bool tser = true;
    if (via)
    {
        tser = !allow_raw || seq::choose(2) == 0;
        t = ht_timeline_create(via == 1 ? 0 : 70, HT_FALSE, tser, nullptr, nullptr);
        l = ht_file_dump_listener_register(t, path.c_str(), bufsize, &err);
    }
    else l = ht_file_dump_listener_create(path.c_str(), bufsize, &err);
    SEQ_CHECK(l && err == HT_ERR_OK, "listener not created (error %d)", err);
    seq::note("listener buffer %zu%s:", bufsize, via ? tser ? ", serialising timeline" : ", raw timeline" : "");
    Bytes E, held; bool stopped = false; std::vector<Snap> snaps;
    snaps.push_back({slurp(path), 0, "create"});
    for (int d = 0; d < depth; d++)
    {
        // 0 end; 1-3 serialised delivery of shapes; 4 serialised pair; 5-7 raw; 8 raw batch; 9 flush, 10 stream flush, 11 stop
        std::vector<int> ops{0, 1, 2, 3, 4, 9, 10, 11};
        if (!via && allow_raw) { ops.insert(ops.end(), {5, 6, 7, 8}); }
        int o = ops[seq::choose(ops.size())];
        if (o == 0) break;
        std::string name; bool must = false;
        if (o <= 8)
        {
            Bytes raw, ser; bool israw = o >= 5;
            int s = (o - 1) % 4; if (s == 3) { make(0, raw, ser); make(1, raw, ser); if (israw) make(2, raw, ser); } else make(s, raw, ser);
            name = (israw ? "raw" : "ser") + std::to_string(s);
            seq::note(" deliver-%s", name.c_str());
            if (!via) { Bytes& b = israw ? raw : ser; std::vector<char> heap(b.begin(), b.end()); ht_file_dump_listener_callback((TEventPtr)heap.data(), heap.size(), israw ? HT_FALSE : HT_TRUE, l); if (!stopped) E += ser; }
            else { size_t p = 0; while (p < raw.size()) { HT_Event* e = (HT_Event*)(raw.data() + p); size_t n = e->klass == ht_EvTiny_get_event_klass_instance() ? sizeof(EvTiny) : sizeof(EvMsg); std::vector<char> h(raw.begin() + p, raw.begin() + p + n); ht_timeline_push_event(t, (HT_Event*)h.data()); p += n; } held += ser; }
        }
        else if (o == 9) { seq::note(" flush"); name = "flush"; if (via) { ht_timeline_flush(t); if (!stopped) E += held; held.clear(); } SEQ_CHECK(ht_file_dump_listener_flush(l, HT_FALSE) == HT_ERR_OK, "flush failed"); }
        else if (o == 10) { seq::note(" stream-flush"); name = "stream flush"; if (via) { ht_timeline_flush(t); if (!stopped) E += held; held.clear(); } SEQ_CHECK(ht_file_dump_listener_flush(l, HT_TRUE) == HT_ERR_OK, "stream flush failed"); must = true; }
        else { seq::note(" stop"); name = "stop"; if (via) { ht_timeline_flush(t); if (!stopped) E += held; held.clear(); } ht_file_dump_listener_stop(l); stopped = true; must = true; }
        snaps.push_back({slurp(path), must ? E.size() + 1 : 0, name});
        seq::step();
        Bytes st; put(st, bufsize); put(st, stopped); put(st, E.size() + held.size()); put(st, via); seq::state(st);
    }
    if (via) { if (!stopped) E += held; ht_timeline_destroy(t); } else ht_file_dump_listener_destroy(l);
    finish(slurp(path), E, snaps, nid == 1 || bufsize % 16 == 0);
    Bytes o; put(o, E.size()); put(o, bufsize); seq::outcome(o);
}
static const size_t kDeep[] = {0, 1, 21, 32, 64, 100, 512, 4096};
static void s_deep() { size_t b = kDeep[seq::choose(8)]; history(b, seq::thorough() ? 4 : 3, b != 0, 0); }
static void s_sizes() { size_t b = seq::choose(seq::thorough() ? 700 : 260); history(b, seq::thorough() ? 3 : 2, b != 0, 0); }
static void s_timeline() { size_t b = kDeep[seq::choose(8)]; history(b, seq::thorough() ? 5 : 4, b != 0, 1 + seq::choose(2)); }
static void s_open()
{
    once();
    HT_ErrorCode e = HT_ERR_OK; std::string p = seq::scratch() + (seq::choose(2) ? "/no/such/dir/file" : "");
    SEQ_CHECK(ht_file_dump_listener_create(p.c_str(), 10, &e) == nullptr && e == HT_ERR_CANT_OPEN_FILE, "a file that cannot be opened gave error %d", e);
    HT_Timeline* t = ht_timeline_create(0, HT_FALSE, HT_TRUE, nullptr, nullptr);
    SEQ_CHECK(ht_file_dump_listener_register(t, p.c_str(), 10, &e) == nullptr && e == HT_ERR_CANT_OPEN_FILE, "a file that cannot be opened gave error %d", e);
    HT_TIMELINE_PUSH_EVENT(t, EvTiny, 1);
    ht_timeline_destroy(t); ht_file_dump_listener_destroy(nullptr);
    // an existing file is replaced
    std::string q = seq::scratch() + "/old"; { std::ofstream f(q); f << std::string(100000, 'z'); }
    HT_FileDumpListener* l = ht_file_dump_listener_create(q.c_str(), 10, &e); SEQ_CHECK(l, "not created"); ht_file_dump_listener_destroy(l);
    finish(slurp(q), Bytes(), {}, true);
    seq::outcome(p);
}
static const seq::Scenario sc[] = {{"histories", s_deep, 0, false}, {"all_buffer_sizes", s_sizes, 0, false}, {"through_timeline", s_timeline, 0, false}, {"opening", s_open, 0, false}};
int main(int argc, char** argv) { return seq::main(argc, argv, sc, 4); }
