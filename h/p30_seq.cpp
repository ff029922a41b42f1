// P30: decoded events own what they hold: copies are independent and outlive the reader, and every string, part, block and file is given back exactly once.
#include "seq.hpp"
#include "dec.hpp"
#include "chrome_trace_converter.hpp"
#include "callgrind_converter.hpp"
#include <sanitizer/allocator_interface.h>
#include <dirent.h>
#include <fstream>
#include <iostream>
#include <unistd.h>
using namespace dec;
static Val num(uint64_t v) { Val x; x.n = v; return x; } static Val strv(const std::string& s) { Val x; x.s = s; return x; }
static size_t live() { return __sanitizer_get_current_allocated_bytes(); }
static int files() { int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) n++; closedir(d); return n; }

// ---- histories of operations on event objects ----
// The model: a map from field name to a canonical text, and the time stamp.
struct M { bool there = false; char k = 0; std::map<std::string, std::string> v; uint64_t ts = ~0ull; };
typedef std::shared_ptr<EventKlass> KP;
static std::unique_ptr<EventKlassField> fld(const char* n, FieldTypeId t) { return std::unique_ptr<EventKlassField>(new EventKlassField(n, "type", t)); }
static KP klass(char k)     // A: label, n, timestamp, part; B: label, more, timestamp; P (a part): text, deep; Q: text
{
    KP p = std::make_shared<EventKlass>(std::string(1, k), 10 + k);
    if (k == 'A') { p->add_field(fld("label", FieldTypeId::STRING)); p->add_field(fld("n", FieldTypeId::UINT16)); p->add_field(fld("timestamp", FieldTypeId::UINT64)); p->add_field(fld("part", FieldTypeId::STRUCT)); }
    else if (k == 'B') { p->add_field(fld("label", FieldTypeId::STRING)); p->add_field(fld("more", FieldTypeId::STRING)); p->add_field(fld("timestamp", FieldTypeId::UINT64)); p->add_field(fld("part", FieldTypeId::STRUCT)); }
    else if (k == 'P') { p->add_field(fld("text", FieldTypeId::STRING)); p->add_field(fld("deep", FieldTypeId::STRUCT)); }
    else p->add_field(fld("text", FieldTypeId::STRING));
    return p;
}
static char* cstr(const std::string& s) { char* p = (char*)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
static const EventKlassField* field(const Event& e, int i) { return e.get_klass()->get_fields().at(i).get(); }
static std::string text_of(const Event& e);
static std::string text_of(const std::string& name, const Event::Value& v)
{
    SEQ_CHECK(v.field && v.field->get_name() == name, "the value of %s has no field or another one", name.c_str());
    switch (v.field->get_type_id())
    {
    case FieldTypeId::STRING: SEQ_CHECK(v.value.f_STRING, "no string in %s", name.c_str()); return v.value.f_STRING;
    case FieldTypeId::STRUCT: SEQ_CHECK(v.value.f_EVENT, "no part in %s", name.c_str()); return text_of(*v.value.f_EVENT);
    case FieldTypeId::UINT16: return std::to_string(v.value.f_UINT16);
    default: return std::to_string(v.value.f_UINT64);
    }
}
static std::string text_of(const Event& e) { std::map<std::string, std::string> m; for (auto& v : e.get_values()) m[v.first] = text_of(v.first, v.second); std::string o = "{"; for (auto& x : m) o += x.first + "=" + x.second + " "; return o + "}"; }
static std::string text_of(const M& m) { std::string o = "{"; for (auto& x : m.v) o += x.first + "=" + x.second + " "; return o + "}"; }
enum Op { NEW_A, NEW_B, SET_LABEL, SET_NUM, SET_TS, SET_PART, SET_MORE, COPY, ASSIGN, ASSIGN_SELF, MOVE, MERGE_COPY, MERGE_MOVE, MERGE_SELF, DROP, NOPS };
static const char* opname[] = {"new A", "new B", "label", "number", "time", "part", "more", "copy of", "assign", "assign itself", "moved from", "merge a copy of", "merge", "merge itself", "drop"};
static std::unique_ptr<Event> ev[3]; static M mod[3]; static int fresh;
static bool possible(int op, int i, int j)
{
    bool a = mod[i].there, b = mod[j].there;
    switch (op)
    {
    case NEW_A: case NEW_B: return !a && (i == 0 || mod[i - 1].there || op);
    case SET_LABEL: case SET_TS: case SET_PART: case ASSIGN_SELF: case MERGE_SELF: case DROP: return a;
    case SET_NUM: return a && mod[i].k == 'A';
    case SET_MORE: return a && mod[i].k == 'B';
    case COPY: case MOVE: return !a && b && i != j;
    default: return a && b && i != j;
    }
}
static bool binary(int op) { return op == COPY || op == ASSIGN || op == MOVE || op == MERGE_COPY || op == MERGE_MOVE; }
static std::unique_ptr<Event> part(std::string& as)
{
    int id = fresh++; std::unique_ptr<Event> e(new Event(klass('P'))); std::string a = "t" + std::to_string(id) + std::string(id % 3 * 30, 'x');
    e->set_value<char*>(field(*e, 0), cstr(a));
    Event* d = new Event(klass('Q')); d->set_value<char*>(field(*d, 0), cstr("d" + a)); e->set_value<Event*>(field(*e, 1), d);
    as = "{deep={text=d" + a + " } text=" + a + " }"; return e;
}
static void check_all()
{
    for (int i = 0; i < 3; i++)
    {
        if (!mod[i].there) continue;
        Event& e = *ev[i]; std::string w = text_of(mod[i]), g = text_of(e);
        SEQ_CHECK(w == g, "event %d: expected %s and got %s", i, w.c_str(), g.c_str());
        SEQ_CHECK(e.get_timestamp() == mod[i].ts, "event %d: the time is %llu instead of %llu", i, (unsigned long long)e.get_timestamp(), (unsigned long long)mod[i].ts);
        SEQ_CHECK(e.get_klass() && e.get_klass()->get_name() == std::string(1, mod[i].k), "event %d: another class", i);
        for (auto n : {"label", "n", "timestamp", "part", "more"}) SEQ_CHECK(e.has_value(n) == (mod[i].v.count(n) > 0), "event %d: has_value(%s)", i, n);
    }
}
static void values_history(int slots, int depth)
{
    for (int n = 0; n < depth; n++)
    {
        int codes[64], c = 0;
        for (int op = 0; op < NOPS; op++) for (int i = 0; i < slots; i++)
        {
            if (!binary(op)) { if (possible(op, i, i)) codes[c++] = op << 4 | i << 2 | i; continue; }
            for (int j = 0; j < slots; j++) if (j != i && possible(op, i, j)) codes[c++] = op << 4 | i << 2 | j;
        }
        int pick = seq::choose(c + 1); if (pick == c) break;
        int op = codes[pick] >> 4, i = codes[pick] >> 2 & 3, j = codes[pick] & 3; M& m = mod[i];
        if (binary(op)) seq::note("%d %s %d; ", i, opname[op], j); else seq::note("%d %s; ", i, opname[op]);
        int id = fresh++; std::string s = "s" + std::to_string(id) + std::string(id % 2 * 40, 'y');
        switch (op)
        {
        case NEW_A: case NEW_B: ev[i].reset(new Event(klass("AB"[op]))); m = M(); m.there = true; m.k = "AB"[op]; break;
        case SET_LABEL: ev[i]->set_value<char*>(field(*ev[i], 0), cstr(s)); m.v.insert({"label", s}); break;
        case SET_MORE: ev[i]->set_value<char*>(field(*ev[i], 1), cstr(s)); m.v.insert({"more", s}); break;
        case SET_NUM: ev[i]->set_value<uint16_t>(field(*ev[i], 1), 60000 + id); m.v.insert({"n", std::to_string(60000 + id)}); break;
        case SET_TS: ev[i]->set_value<uint64_t>(field(*ev[i], 2), 1ull << (20 + id)); if (m.v.insert({"timestamp", std::to_string(1ull << (20 + id))}).second) m.ts = 1ull << (20 + id); break;
        case SET_PART: { std::string t; auto p = part(t); ev[i]->set_value<Event*>(field(*ev[i], 3), p.release()); m.v.insert({"part", t}); break; }
        case COPY: ev[i].reset(new Event(*ev[j])); m = mod[j]; break;
        case ASSIGN: *ev[i] = *ev[j]; m = mod[j]; break;
        case ASSIGN_SELF: { Event& e = *ev[i]; *ev[i] = e; break; }
        case MOVE: ev[i].reset(new Event(std::move(*ev[j]))); m = mod[j]; ev[j].reset(); mod[j] = M(); break;
        case MERGE_SELF: { Event& e = *ev[i]; ev[i]->merge(e); break; }
        case MERGE_COPY: case MERGE_MOVE:
            if (op == MERGE_COPY) ev[i]->merge(*ev[j]); else ev[i]->merge(std::move(*ev[j]));
            for (auto& x : mod[j].v) if (m.v.insert(x).second && x.first == "timestamp") m.ts = std::stoull(x.second);
            if (op == MERGE_MOVE) { ev[j].reset(); mod[j] = M(); }
            break;
        case DROP: ev[i].reset(); m = M(); break;
        }
        check_all(); seq::step();
    }
    std::string st; for (int i = 0; i < 3; i++) st += mod[i].there ? mod[i].k + text_of(mod[i]) : std::string("-"); seq::state(st); seq::outcome(st);
    for (int i = 0; i < 3; i++) { ev[i].reset(); mod[i] = M(); check_all(); }
}
static void balanced(void (*f)(int, int), int a, int b)
{
    std::string* hold = nullptr; (void)hold; fresh = 0; for (auto& m : mod) m = M();
    size_t before = live(); f(a, b);
    size_t after = live(); SEQ_CHECK(after == before, "%zd bytes are still allocated when all events are gone", (ssize_t)(after - before));
}
static void s_values() { seq::note(" "); balanced(values_history, 2, seq::thorough() ? 6 : 5); }
static void s_three() { balanced(values_history, 3, seq::thorough() ? 6 : 5); }

// ---- what a string holds and how long it is makes no difference to a copy ----
static void strings_history(int what, int how)
{
    std::string s;
    if (what < 255) s = "a" + std::string(1, (char)(what + 1)) + "b";            // every byte a string can hold, in the middle,
    else if (what < 510) s = std::string(1, (char)(what - 254)) + "tail";          // in front
    else if (what < 765) s = "head" + std::string(1, (char)(what - 509));          // and at the end
    else { static const int len[] = {0, 1, 2, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 131072, 1000000};
        int n = len[what - 765]; s.resize(n); for (int i = 0; i < n; i++) s[i] = 'a' + i % 23; }
    std::string w = "{label=" + s + " part={text=" + s + " } }", g;
    {
        Event e(klass('A')); e.set_value<char*>(field(e, 0), cstr(s));
        Event* p = new Event(klass('P')); p->set_value<char*>(field(*p, 0), cstr(s)); e.set_value<Event*>(field(e, 3), p);
        std::unique_ptr<Event> k;
        switch (how)
        {
        case 0: k.reset(new Event(e)); break;
        case 1: k.reset(new Event(klass('B'))); *k = e; break;
        case 2: k.reset(new Event(klass('A'))); k->merge(e); break;
        case 3: k.reset(new Event(klass('A'))); { Event c(e); k->merge(std::move(c)); } break;
        case 4: { Event c(e); k.reset(new Event(std::move(c))); break; }
        default: { std::vector<Event> v; for (int i = 0; i < 5; i++) v.push_back(e); k.reset(new Event(v[3])); }
        }
        g = text_of(e); SEQ_CHECK(g == w, "the original changed: %.200s instead of %.200s", g.c_str(), w.c_str());
        { Event gone(std::move(e)); }
        g = text_of(*k); SEQ_CHECK(g == w, "the copy is %.200s instead of %.200s", g.c_str(), w.c_str());
    }
    seq::step(); seq::state(std::to_string(what) + "/" + std::to_string(how)); seq::outcome(g);
}
static void s_strings() { seq::note(" "); int what = seq::choose(765 + 32), how = seq::choose(6); seq::note("string %d, way %d; ", what, how); balanced(strings_history, what, how); }

// ---- reading whole and cut traces ----
static Klass kTiny{"Tiny", 10, nullptr, {{"v", U8}}}, kMsg{"Msg", 11, nullptr, {{"who", U32}, {"text", STR}}}, kD1{"Derived", 12, &kMsg, {{"extra", I16}, {"more", STR}}}, kD2{"Derived2", 13, &kD1, {{"last", STR}, {"end", U64}}},
    kDup{"Dup", 14, &kMsg, {{"text", STR}, {"who", U32}}}, kDup2{"Dup2", 15, &kDup, {{"text", STR}}}, kHead{"Head", 16, nullptr, {{"id", U64}, {"timestamp", U64}, {"klass_id", U32}}}, kStr{"Strings", 17, nullptr, {{"a", STR}, {"b", STR}, {"c", STR}}},
    kCb{"HT_CallstackBaseEvent", 20, nullptr, {{"duration", U64}, {"thread_id", U32}}}, kSpan{"HT_CallstackStringEvent", 21, &kCb, {{"label", STR}}}, kNamed{"Named", 22, nullptr, {{"name", STR}}}, kMap{"HT_StringMappingEvent", 23, nullptr, {{"identifier", U64}, {"label", STR}}};
static const Klass* const all[] = {&kTiny, &kMsg, &kD1, &kD2, &kDup, &kDup2, &kHead, &kStr, &kCb, &kSpan, &kNamed, &kMap};
static Ev event(int c, int variant)
{
    const Klass* k = c < 0 ? nullptr : all[c]; Ev e{k, 1000u + c * 10 + variant, 7u + variant, {}};
    std::vector<const Klass*> ch; for (auto q = k; q; q = q->base) ch.insert(ch.begin(), q);
    int n = 0; for (auto q : ch) for (auto& f : q->fields) { e.vals.push_back(f.kind == STR ? strv(variant == 1 ? "" : "text " + std::to_string(n) + std::string(variant * 25, 'z')) : num(n + 3)); n++; }
    return e;
}
// the classes of a struct that holds structs which are not its base
static void nested_parts(Trace& t, bool odd)
{
    t.klass_info(30, "Inner", 3); t.field_info(30, "HT_Event", "base", 24, 1); t.field_info(30, "const char*", "in", 8, 2); t.field_info(30, "uint8_t", "b", 1, 99);
    t.klass_info(31, "Outer", 4); t.field_info(31, "HT_Event", "base", 24, 1); t.field_info(31, "Inner", "one", 40, 1); t.field_info(31, "const char*", "mid", 8, 2); t.field_info(31, odd ? "Missing" : "Inner", "two", 40, 1);
    t.done(false);
}
static void drain(const std::vector<Event>& kept, std::string& o) { for (auto& e : kept) { std::string err; o += got(e, err) + (err.empty() ? "\n" : " [" + err + "]\n"); } }
struct Run { std::string during, after; };
// events are copied by the listener, and looked at when the reader, the stream and the register are gone
static Run read_keep(const Bytes& b, bool flat, int via, const std::string& path, int how)
{
    Run r; std::vector<Event> kept;
    {
        KlassRegister kr; ProtocolReader rd(&kr, std::unique_ptr<Stream>(via ? (Stream*)new FileStream(path) : new MemStream(b, false)), flat);
        Event last(kr.get_klass(1));
        rd.register_events_listener([&](const Event& e) {
            std::string err; std::string t = got(e, err); r.during += t + (err.empty() ? "\n" : " [" + err + "]\n");
            if (how == 0) kept.push_back(e); else if (how == 1) { Event c(e); kept.push_back(std::move(c)); } else { last = e; kept.push_back(last); } });
        SEQ_CHECK(rd.start(), "the reader does not start"); rd.wait_for_complete(); rd.stop();
    }
    drain(kept, r.after); return r;
}
static void same_twice(const Bytes& b, bool flat, int via, int how)
{
    std::string path; if (via) { path = seq::scratch() + "/t.htdump"; std::ofstream f(path, std::ios::binary); f << b; }
    Run first = read_keep(b, flat, via, path, how); SEQ_CHECK(first.during == first.after, "the copies kept by a listener changed: %.300s became %.300s", first.during.c_str(), first.after.c_str());
    // the second and third reading start from the same state of the process
    { Run r = read_keep(b, flat, via, path, how); }
    size_t m0 = live(); int f0 = files();
    { Run r = read_keep(b, flat, via, path, how); SEQ_CHECK(r.during == first.during, "the second reading delivers something else"); }
    size_t m1 = live(); int f1 = files();
    SEQ_CHECK(m1 == m0, "reading leaves %zd bytes allocated (%s events%s)", (ssize_t)(m1 - m0), flat ? "flat" : "nested", via ? ", file" : "");
    SEQ_CHECK(f1 == f0, "reading leaves %d files open", f1 - f0); seq::step(); seq::state(b); seq::outcome(first.during);
}
static Trace family(int which, int variant)
{
    Trace t; t.byte_order(false); t.announce_head(); for (auto k : all) t.announce(*k);
    if (which < 12) { t.event(event(which, variant)); t.event(event(-1, 0)); t.event(event(which, 0)); }
    else
    {
        nested_parts(t, which == 13); t.head(31, 5, 6); t.num(30, 4); t.num(1, 8); t.num(2, 8); 
        // Outer: head, Inner{base?}: the parts' own heads are not in the trace when they are read as parts of another event
        t.str("in one"); t.num(1, 1); t.str("mid"); t.str("in two"); t.num(2, 1); t.head(1, 1, 1); t.done(false);
    }
    return t;
}
static void s_whole() { int w = seq::choose(14), v = seq::choose(3); bool flat = seq::choose(2); int via = seq::choose(2), how = seq::choose(3); Trace t = family(w, v); same_twice(t.b, flat, via, how); }
static void s_cut()
{
    int w = seq::choose(14), v = seq::thorough() ? seq::choose(3) : 2; bool flat = seq::choose(2); Trace t = family(w, v); size_t from = 0; for (auto& i : t.items) if (i.meta) from = i.end;
    size_t cut = from + seq::choose(t.b.size() - from); same_twice(t.b.substr(0, cut), flat, 0, 0);
}
static void s_cut_meta()
{
    bool flat = seq::choose(2); Trace t; t.byte_order(false); for (auto k : {&kMsg, &kD1}) t.announce(*k); t.event(event(2, 0));
    same_twice(t.b.substr(0, seq::choose(t.b.size() + 1)), flat, 0, 0);
}
// ---- every value of a bad event, a class announced twice, fields announced twice ----
static void s_odd()
{
    Trace t; t.byte_order(false); int n = 1 + seq::choose(3), m = seq::choose(7); bool flat = seq::choose(2); seq::note("announced %d times, case %d, %s", n, m, flat ? "flat" : "nested");
    for (int i = 0; i < n; i++) t.announce(kMsg);
    if (m == 1) t.field_info(99, "uint8_t", "x", 1, 99);
    if (m == 2) t.field_info(kMsg.id, "void*", "p", 8, 6);
    if (m == 3) { t.klass_info(40, "Odd", 1); t.field_info(40, "const char*", "s", 8, 2); t.field_info(40, "Msg", "one", 8, 1); t.field_info(40, "Msg", "two", 8, 1); t.head(40, 1, 1); t.str("s"); for (int i = 0; i < 2; i++) { t.num(i, 4); t.str("part"); } }
    if (m == 4) { t.klass_info(41, "Bad", 1); t.field_info(41, "const char*", "s", 8, 2); t.field_info(41, "Nothing", "no", 8, 1); t.head(41, 1, 1); t.str("s"); }
    if (m == 5) { t.klass_info(42, "Self", 1); t.field_info(42, "uint8_t", "x", 1, 99); t.field_info(42, "Self", "me", 8, 1); t.head(42, 1, 1); t.num(1, 1); }
    if (m == 6) { t.klass_info(43, "P", 1); t.klass_info(44, "Q", 1); t.field_info(43, "Q", "q", 8, 1); t.field_info(44, "P", "p", 8, 1); t.head(43, 1, 1); t.head(44, 1, 1); }
    t.event(event(1, 0)); for (int i = 0; i < 8; i++) t.str("trailing " + std::to_string(i)); same_twice(t.b, flat, 0, 0);
}
// ---- the converters ----
static void s_converters()
{
    int w = seq::choose(13), which = seq::choose(2), reps = 1 + seq::choose(3); if (chdir(seq::scratch().c_str())) seq::fail("harness: chdir");
    Trace t; t.byte_order(false); t.announce_head(); for (auto k : all) t.announce(*k); if (w < 12) for (int i = 0; i < reps; i++) t.event(event(w, 0));
    else for (int i = 0; i < 2 + reps; i++) { Ev e{&kSpan, 100u + i, 1, {num(50 - 2 * i), num(i & 1), strv("f" + std::to_string(i))}}; t.event(e); Ev l{&kMap, 1, 1, {num(i), strv("label")}}; t.event(l); }
    auto run = [&] {
        std::unique_ptr<HawkTracer::client::Converter> c(which ? (HawkTracer::client::Converter*)new HawkTracer::client::CallgrindConverter : new HawkTracer::client::ChromeTraceConverter); SEQ_CHECK(c->init("out"), "init");
        KlassRegister kr; ProtocolReader rd(&kr, std::unique_ptr<Stream>(new MemStream(t.b, false)), true); rd.register_events_listener([&](const Event& e) { c->process_event(e); });
        SEQ_CHECK(rd.start(), "the reader does not start"); rd.wait_for_complete(); rd.stop(); c->stop(); };
    run(); run(); size_t m0 = live(); int f0 = files(); run(); size_t m1 = live(); int f1 = files();
    SEQ_CHECK(m1 == m0, "converting leaves %zd bytes allocated", (ssize_t)(m1 - m0)); SEQ_CHECK(f0 == f1, "converting leaves %d files open", f1 - f0); seq::step(); seq::state(t.b); seq::outcome(t.b);
}
// a file stream started and stopped in any order reads from the start after every start, and holds no file when it is stopped or gone
static void s_file_histories()
{
    std::string path = seq::scratch() + "/f.bin"; { std::ofstream f(path, std::ios::binary); f << "\x01\xff" "cd"; } int f0 = files(); size_t m0 = 0;
    m0 = live();
    {
        {
            FileStream fs(path); bool on = false; size_t at = 0; std::string d("\x01\xff" "cd"), hist;
            int depth = seq::thorough() ? 7 : 5;
            for (int i = 0; i < depth; i++)
            {
                int op = seq::choose(on ? 4 : 2);
                if (op == 0) { SEQ_CHECK(fs.start(), "start failed after %s", hist.c_str()); on = true; at = 0; hist += "start "; }
                else if (op == 1) { fs.stop(); on = false; hist += "stop "; }
                else if (op == 2) { int c = fs.read_byte(); SEQ_CHECK(c == (at < d.size() ? (unsigned char)d[at] : -1), "after %s: byte %zu is %d", hist.c_str(), at, c); if (at < d.size()) at++; hist += "byte "; }
                else { char b[3]; bool ok = fs.read_data(b, 3); SEQ_CHECK(ok == (d.size() - at >= 3), "after %s: reading 3 bytes", hist.c_str()); if (ok) SEQ_CHECK(memcmp(b, &d[at], 3) == 0, "wrong bytes"); at = ok ? at + 3 : d.size(); hist += "block "; }
                SEQ_CHECK(!fs.is_continuous(), "a file is not continuous"); int f1 = files(); SEQ_CHECK(f1 == f0 + on, "%d files are open after %s", f1 - f0, hist.c_str()); seq::step();
            }
            seq::state(hist); seq::outcome(hist);
        }
        SEQ_CHECK(files() == f0, "a file is left open");
    }
    size_t m1 = live(); SEQ_CHECK(m1 == m0, "%zd bytes leaked", (ssize_t)(m1 - m0));
}
int main(int argc, char** argv)
{
    std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr);
    static const seq::Scenario s[] = {{"values", s_values, 0, false}, {"three", s_three, 0, false}, {"strings", s_strings, 0, false}, {"whole", s_whole, 0, false}, {"cut", s_cut, 0, false}, {"cut_meta", s_cut_meta, 0, false}, {"odd", s_odd, 0, false}, {"files", s_file_histories, 0, false}, {"converters", s_converters, 0, false}};
    return seq::main(argc, argv, s, sizeof s / sizeof s[0]);
}
