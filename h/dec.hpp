// Traces as the reference model sees them (values, byte positions, canonical text of every event) and the real reader run on bytes.
#pragma once
#include "ref.hpp"
#include <hawktracer/parser/event.hpp>
#include <hawktracer/parser/file_stream.hpp>
#include <hawktracer/parser/klass_register.hpp>
#include <hawktracer/parser/protocol_reader.hpp>
#include <algorithm>
#include <map>
#include <memory>
namespace dec {
using namespace HawkTracer::parser;

// ---- reference ----
enum Kind { U8, I8, U16, I16, U32, I32, U64, I64, STR };
inline unsigned width(Kind k) { static const unsigned w[] = {1, 1, 2, 2, 4, 4, 8, 8, 0}; return w[k]; }
inline const char* ctype(Kind k) { static const char* n[] = {"uint8_t", "int8_t", "uint16_t", "int16_t", "uint32_t", "int32_t", "uint64_t", "int64_t", "const char*"}; return n[k]; }
struct Val { uint64_t n = 0; std::string s; };
struct Field { std::string name; Kind kind; };
struct Klass { std::string name; uint32_t id; const Klass* base; std::vector<Field> fields; };     // base null: HT_Event
inline std::string esc(const std::string& s) { std::string o = "\""; char t[8]; for (unsigned char c : s) if (c < 33 || c > 126 || c == '"' || c == '\\') { snprintf(t, 8, "\\%02x", c); o += t; } else o += c; return o + "\""; }
inline std::string text(Kind k, const Val& v)
{
    if (k == STR) return esc(v.s);
    unsigned w = width(k); uint64_t n = v.n; if (w < 8) n &= (1ull << 8 * w) - 1;
    if ((k & 1) && w < 8 && (n >> (8 * w - 1))) n |= ~0ull << (8 * w);
    return (k & 1) ? std::to_string((int64_t)n) : std::to_string(n);
}
typedef std::vector<std::string> Parts;
inline std::string join(Parts p) { std::sort(p.begin(), p.end()); std::string o; for (auto& x : p) o += " " + x; return o; }
inline std::string part(const std::string& name, Kind k, const Val& v) { return name + ":" + std::to_string((int)k) + "=" + text(k, v); }
inline Parts head_parts(uint32_t klass, uint64_t ts, uint64_t id) { Val a, b, c; a.n = klass; b.n = ts; c.n = id; return {part("klass_id", U32, a), part("timestamp", U64, b), part("id", U64, c)}; }
struct Ev { const Klass* k; uint64_t ts, id; std::vector<Val> vals; };       // vals: base class fields first
inline size_t nfields(const Klass* k) { return k ? nfields(k->base) + k->fields.size() : 0; }
inline std::string canon_fields(const Klass* k, const Ev& e, bool flat, Parts* into)
{
    Parts p; Parts& o = into ? *into : p;
    size_t at = k ? nfields(k->base) : 0;
    if (!k) { for (auto& x : head_parts(e.k ? e.k->id : 1, e.ts, e.id)) o.push_back(x); }
    else
    {
        if (flat) canon_fields(k->base, e, true, &o); else o.push_back("base{" + canon_fields(k->base, e, false, nullptr) + " }");
        for (size_t i = 0; i < k->fields.size(); i++) o.push_back(part(k->fields[i].name, k->fields[i].kind, e.vals[at + i]));
    }
    return into ? "" : join(o);
}
inline std::string canon(const Ev& e, bool flat) { return (e.k ? e.k->name + "#" + std::to_string(e.k->id) : std::string("HT_Event#1")) + canon_fields(e.k, e, flat, nullptr); }
struct Item { size_t end; bool meta; std::string flat, nested; };      // one event of the trace, where it ends, and how it has to be delivered
struct Trace
{
    Bytes b; bool swap = false; std::vector<Item> items;
    void num(uint64_t v, unsigned w) { char t[8]; memcpy(t, &v, 8); if (swap) std::reverse(t, t + w); b.append(t, w); }
    void str(const std::string& s) { b += s; b += '\0'; }
    void head(uint32_t k, uint64_t ts, uint64_t id) { num(k, 4); num(ts, 8); num(id, 8); }
    void done(bool meta, std::string f = "", std::string n = "") { items.push_back({b.size(), meta, f, n}); }
    // metadata events: only what follows from their meaning is judged, so no canonical text
    void byte_order(bool big) { head(0, 1, 1); b += big ? '\1' : '\0'; done(true); }
    void klass_info(uint32_t id, const std::string& name, unsigned fields) { head(2, 2, 2); num(id, 4); str(name); num(fields, 1); done(true); }
    void field_info(uint32_t id, const std::string& type, const std::string& name, uint64_t size, int dt) { head(3, 3, 3); num(id, 4); str(type); str(name); num(size, 8); num(dt, 1); done(true); }
    void announce_head() { klass_info(1, "HT_Event", 3); field_info(1, "HT_EventKlass*", "klass", 8, 6); field_info(1, "HT_TimestampNs", "timestamp", 8, 99); field_info(1, "HT_EventId", "id", 8, 99); }
    void announce(const Klass& k)
    {
        klass_info(k.id, k.name, k.fields.size() + 1);
        field_info(k.id, k.base ? k.base->name : "HT_Event", "base", 24, 1);
        for (auto& f : k.fields) field_info(k.id, ctype(f.kind), f.name, f.kind == STR ? 8 : width(f.kind), f.kind == STR ? 2 : (f.kind & 1) ? 3 : 99);
    }
    void payload(const Klass* k, const Ev& e) { if (!k) return; payload(k->base, e); size_t at = nfields(k->base); for (size_t i = 0; i < k->fields.size(); i++) if (k->fields[i].kind == STR) str(e.vals[at + i].s); else num(e.vals[at + i].n, width(k->fields[i].kind)); }
    void event(const Ev& e) { head(e.k ? e.k->id : 1, e.ts, e.id); payload(e.k, e); done(false, canon(e, true), canon(e, false)); }
};

// ---- the real reader ----
inline Parts got_fields(const Event& e, std::string& err);
inline std::string got_value(const Event& e, const std::string& name, const Event::Value& v, std::string& err)
{
    if (!v.field) { err = "value without field"; return "?"; }
    if (v.field->get_name() != name) err = "value " + name + " carries field " + v.field->get_name();
    Val x;
    switch (v.field->get_type_id())
    {
#define N(K, T) case FieldTypeId::K: x.n = (uint64_t)v.value.f_##K; if (e.get_value<T>(name) != v.value.f_##K || e.get_value_or_default<T>(name, 0) != v.value.f_##K) err = "get_value and raw value differ"; break
    N(UINT8, uint8_t); N(INT8, int8_t); N(UINT16, uint16_t); N(INT16, int16_t); N(UINT32, uint32_t); N(INT32, int32_t); N(UINT64, uint64_t); N(INT64, int64_t);
#undef N
    case FieldTypeId::STRING: if (!v.value.f_STRING) { err = "null string"; return "?"; } x.s = v.value.f_STRING; if (e.get_value<char*>(name) != v.value.f_STRING) err = "get_value and raw value differ"; break;
    case FieldTypeId::STRUCT: if (!v.value.f_EVENT) { err = "null struct"; return "?"; } return name + "{" + join(got_fields(*v.value.f_EVENT, err)) + " }";
    default: err = "value of odd type"; return "?";
    }
    static const Kind km[] = {U8, I8, U16, I16, U32, I32, U64, I64, STR, STR, STR};
    return part(name, km[(int)v.field->get_type_id()], x);
}
inline Parts got_fields(const Event& e, std::string& err) { Parts p; for (auto& v : e.get_values()) p.push_back(got_value(e, v.first, v.second, err)); return p; }
inline std::string got(const Event& e, std::string& err)
{
    auto k = e.get_klass(); if (!k) { err = "event without class"; return "?"; }
    return k->get_name() + "#" + std::to_string(k->get_id()) + join(got_fields(e, err));
}
struct MemStream : Stream
{
    const Bytes& d; size_t p = 0; bool live; MemStream(const Bytes& b, bool c) : d(b), live(c) {}
    bool start() override { p = 0; return true; } void stop() override {}
    int read_byte() override { return p < d.size() ? (unsigned char)d[p++] : -1; }
    bool read_data(char* b, size_t n) override { if (n > d.size() - p) { p = d.size(); return false; } memcpy(b, d.data() + p, n); p += n; return true; }
    bool is_continuous() override { return live; }
};
struct Got { std::vector<std::string> events; std::vector<uint32_t> klass; std::string err; bool started = false, ended = false; };
enum Via { MEM, LIVE, FILE_ };
inline Got read(const Bytes& b, bool flat, Via via = MEM, const std::string& path = "", bool copies = false)
{
    Got g; KlassRegister kr; std::vector<Event> kept; std::vector<std::string> was;
    {
        std::unique_ptr<Stream> s(via == FILE_ ? (Stream*)new FileStream(path) : new MemStream(b, via == LIVE));
        ProtocolReader r(&kr, std::move(s), flat);
        r.register_events_listener([&](const Event& e) {
            g.events.push_back(got(e, g.err)); g.klass.push_back(e.get_klass() ? e.get_klass()->get_id() : ~0u);
            if (flat && e.has_value("timestamp") && e.get_timestamp() != e.get_value<uint64_t>("timestamp")) g.err = "get_timestamp() differs from the field";
            if (copies) { Event c(e); kept.push_back(c); was.push_back(g.events.back()); } });
        if (!r.start()) return g;
        g.started = true; r.wait_for_complete(); g.ended = r.eos(); r.stop();
    }
    for (size_t i = 0; i < kept.size(); i++)
    {
        std::string e2; if (got(kept[i], e2) != was[i] || !e2.empty()) g.err = "a copy of event " + was[i] + " became " + got(kept[i], e2);
    }
    return g;
}
// "" if exactly the first n items were delivered, in order, with their values
inline std::string compare(const Trace& t, const Got& g, bool flat, size_t n, bool exact = true)
{
    static const char* mn[] = {"HT_EndiannessInfoEvent#0", "", "HT_EventKlassInfoEvent#2", "HT_EventKlassFieldInfoEvent#3"};
    if (!g.started) return "the reader did not start";
    if (!g.ended) return "the end of the stream is not reported";
    if (!g.err.empty() && exact) return g.err;
    for (size_t i = 0; i < n; i++)
    {
        if (i >= g.events.size()) return "event " + std::to_string(i) + " of " + std::to_string(n) + " was not delivered: " + (t.items[i].meta ? "metadata" : flat ? t.items[i].flat : t.items[i].nested).substr(0, 300);
        if (t.items[i].meta) { if (g.klass[i] > 3 || g.klass[i] == 1 || g.events[i].compare(0, strlen(mn[g.klass[i]]), mn[g.klass[i]]) != 0) return "instead of metadata event " + std::to_string(i) + " came " + g.events[i].substr(0, 300); }
        else { auto& w = flat ? t.items[i].flat : t.items[i].nested; if (w != g.events[i]) return "event " + std::to_string(i) + ": expected " + w.substr(0, 300) + " and got " + g.events[i].substr(0, 300); }
    }
    if (exact && g.events.size() > n) return "an event too many was delivered: " + g.events[n].substr(0, 300);
    return "";
}
inline size_t complete(const Trace& t, size_t bytes) { size_t n = 0; while (n < t.items.size() && t.items[n].end <= bytes) n++; return n; }
}
