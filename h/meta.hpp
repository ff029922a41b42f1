// Expected metadata: independent description of classes, and a checker for serialised and raw metadata streams.
#pragma once
#include "refdec.hpp"
struct XField { std::string name, type; int dt; uint64_t size; };                 // dt as in the format: 1 struct, 2 string, 3 signed, 99 unsigned, 4/5/6
struct XKlass { std::string name; uint32_t id; std::vector<XField> fields; };
inline std::vector<XKlass> core_klasses()
{
    XField base{"base", "HT_Event", 1, 24};
    return {
        {"HT_EndiannessInfoEvent", 0, {base, {"endianness", "uint8_t", 99, 1}}},
        {"HT_Event", 1, {{"klass", "HT_EventKlass*", 6, 8}, {"timestamp", "HT_TimestampNs", 99, 8}, {"id", "HT_EventId", 99, 8}}},
        {"HT_EventKlassInfoEvent", 2, {base, {"info_klass_id", "HT_EventKlassId", 99, 4}, {"event_klass_name", "const char*", 2, 8}, {"field_count", "uint8_t", 99, 1}}},
        {"HT_EventKlassFieldInfoEvent", 3, {base, {"info_klass_id", "HT_EventKlassId", 99, 4}, {"field_type", "const char*", 2, 8}, {"field_name", "const char*", 2, 8}, {"size", "uint64_t", 99, 8}, {"data_type", "uint8_t", 99, 1}}},
        {"HT_CallstackBaseEvent", ~0u, {base, {"duration", "HT_DurationNs", 99, 8}, {"thread_id", "HT_ThreadId", 99, 4}}},
        {"HT_CallstackIntEvent", ~0u, {{"base", "HT_CallstackBaseEvent", 1, 40}, {"label", "HT_CallstackEventLabel", 99, 8}}},
        {"HT_CallstackStringEvent", ~0u, {{"base", "HT_CallstackBaseEvent", 1, 40}, {"label", "const char*", 2, 8}}},
        {"HT_StringMappingEvent", ~0u, {base, {"identifier", "uint64_t", 99, 8}, {"label", "const char*", 2, 8}}},
        {"HT_SystemInfoEvent", ~0u, {base, {"version_major", "uint8_t", 99, 1}, {"version_minor", "uint8_t", 99, 1}, {"version_patch", "uint8_t", 99, 1}}},
    };
}
inline std::vector<XKlass> user_klasses()
{
    XField base{"base", "HT_Event", 1, 24};
    return {
        {"EvTiny", ~0u, {base, {"v", "uint8_t", 99, 1}}},
        {"EvMsg", ~0u, {base, {"who", "uint32_t", 99, 4}, {"seq", "uint32_t", 99, 4}, {"text", "const char*", 2, 8}}},
        {"EvNums", ~0u, {base, {"i8", "int8_t", 3, 1}, {"u8", "uint8_t", 99, 1}, {"i16", "int16_t", 3, 2}, {"u16", "uint16_t", 99, 2}, {"i32", "int32_t", 3, 4}, {"u32", "uint32_t", 99, 4}, {"i64", "int64_t", 3, 8}, {"u64", "uint64_t", 99, 8}}},
        {"EvDerived", ~0u, {{"base", "EvMsg", 1, 40}, {"extra", "int16_t", 3, 2}, {"more", "const char*", 2, 8}}},
        {"EvDerived2", ~0u, {{"base", "EvDerived", 1, 56}, {"last", "const char*", 2, 8}, {"end", "uint64_t", 99, 8}}},
    };
}
// the announcements found in a stream, in the same shape
struct Announced { std::vector<XKlass> klasses; std::vector<unsigned> counts; int first = -1; std::string error; std::vector<std::string> other; };
inline Announced read_serialised(const Bytes& b)
{
    Announced a; RDec r; r.run(b); a.error = r.error;
    if (a.error.empty() && r.good != b.size()) a.error = "metadata ends inside an event";
    for (auto& e : r.events) { if (a.first < 0) a.first = e.klass; if (!e.meta) a.other.push_back(e.name); if (e.klass == 0 && e.off != 0) a.error = "second byte-order event"; if (e.klass == 0 && e.num("endianness") != 0) a.error = "wrong byte order announced"; }
    for (uint32_t id : r.order) { auto& k = r.klasses[id]; XKlass x{k.name, k.id, {}}; for (auto& f : k.fields) x.fields.push_back({f.name, f.type, f.dt, f.size}); a.klasses.push_back(x); a.counts.push_back(k.announced_fields); }
    return a;
}
inline Announced read_raw(const std::vector<Bytes>& chunks)
{
    Announced a;
    for (auto& c : chunks) for (size_t p = 0; p < c.size();)
    {
        if (c.size() - p < sizeof(HT_Event)) { a.error = "raw metadata ends inside an event"; return a; }
        HT_Event h; memcpy(&h, c.data() + p, sizeof h);
        size_t n; 
        if (h.klass == ht_HT_EndiannessInfoEvent_get_event_klass_instance())
        {
            n = sizeof(HT_EndiannessInfoEvent); if (c.size() - p < n) { a.error = "raw metadata ends inside an event"; return a; }
            HT_EndiannessInfoEvent e; memcpy(&e, c.data() + p, n); if (e.endianness != 0) a.error = "wrong byte order announced";
            if (a.first < 0) a.first = 0; else a.error = "second byte-order event";
        }
        else if (h.klass == ht_HT_EventKlassInfoEvent_get_event_klass_instance())
        {
            n = sizeof(HT_EventKlassInfoEvent); if (c.size() - p < n) { a.error = "raw metadata ends inside an event"; return a; }
            HT_EventKlassInfoEvent e; memcpy(&e, c.data() + p, n); if (a.first < 0) a.first = 2;
            for (auto& k : a.klasses) if (k.id == e.info_klass_id) { a.error = "class announced twice"; return a; }
            a.klasses.push_back({e.event_klass_name, e.info_klass_id, {}}); a.counts.push_back(e.field_count);
        }
        else if (h.klass == ht_HT_EventKlassFieldInfoEvent_get_event_klass_instance())
        {
            n = sizeof(HT_EventKlassFieldInfoEvent); if (c.size() - p < n) { a.error = "raw metadata ends inside an event"; return a; }
            HT_EventKlassFieldInfoEvent e; memcpy(&e, c.data() + p, n); if (a.first < 0) a.first = 3;
            bool f = false; for (auto& k : a.klasses) if (k.id == e.info_klass_id) { k.fields.push_back({e.field_name, e.field_type, e.data_type, e.size}); f = true; }
            if (!f) { a.error = "field of unannounced class"; return a; }
        }
        else if (h.klass == ht_HT_SystemInfoEvent_get_event_klass_instance()) { n = sizeof(HT_SystemInfoEvent); if (c.size() - p < n) { a.error = "raw metadata ends inside an event"; return a; } a.other.push_back("HT_SystemInfoEvent"); if (a.first < 0) a.first = 8; }
        else { a.error = "raw metadata contains an event of an unknown class"; return a; }
        p += n;
    }
    return a;
}
// every class of `want` (and nothing else) is announced exactly once and completely; returns a complaint or ""
inline std::string compare_meta(const Announced& a, const std::vector<XKlass>& want, bool allow_more)
{
    char t[400];
    if (!a.error.empty()) return a.error;
    if (a.first != 0) return "the byte order is not announced first";
    for (auto& o : a.other) if (o != "HT_SystemInfoEvent") return "metadata contains an event of class " + o;
    for (size_t i = 0; i < a.klasses.size(); i++) for (size_t j = 0; j < i; j++) { if (a.klasses[i].id == a.klasses[j].id) return "two classes announced with one identifier"; if (a.klasses[i].name == a.klasses[j].name && !allow_more) return "class " + a.klasses[i].name.substr(0, 40) + " announced twice"; }
    for (auto& w : want)
    {
        const XKlass* k = nullptr; unsigned cnt = 0;
        for (size_t i = 0; i < a.klasses.size(); i++) if (a.klasses[i].name == w.name) { k = &a.klasses[i]; cnt = a.counts[i]; }
        if (!k) return "class " + w.name.substr(0, 60) + " is not announced";
        if (w.id != ~0u && k->id != w.id) { snprintf(t, sizeof t, "class %.60s announced with identifier %u instead of %u", w.name.c_str(), k->id, w.id); return t; }
        if (cnt != w.fields.size() || k->fields.size() != w.fields.size()) { snprintf(t, sizeof t, "class %.60s announced with %u fields, %zu described, %zu expected", w.name.c_str(), cnt, k->fields.size(), w.fields.size()); return t; }
        for (size_t i = 0; i < w.fields.size(); i++)
        {
            auto &f = k->fields[i]; auto& x = w.fields[i];
            if (f.name != x.name || f.type != x.type || f.dt != x.dt || (f.dt != 2 && f.size != x.size))
            { snprintf(t, sizeof t, "field %zu of %.60s announced as %.60s %.60s type %d size %llu, expected %.60s %.60s type %d size %llu", i, w.name.c_str(), f.type.c_str(), f.name.c_str(), f.dt, (unsigned long long)f.size, x.type.c_str(), x.name.c_str(), x.dt, (unsigned long long)x.size); return t; }
        }
    }
    if (!allow_more && a.klasses.size() != want.size()) { for (auto& k : a.klasses) { bool f = false; for (auto& w : want) f |= w.name == k.name; if (!f) return "unexpected class " + k.name.substr(0, 60) + " announced"; } return "wrong number of classes announced"; }
    return "";
}
