// Reference decoder for HTDUMP byte streams, written from docs/design/htdump_format.md, independent of the repository's parser.
#pragma once
#include "ref.hpp"
#include <map>
#include <fstream>
#include <sstream>

struct RField { std::string name, type; uint8_t dt; uint64_t size; };
struct RKlass { uint32_t id; std::string name; unsigned announced_fields; std::vector<RField> fields; };
struct RVal { std::string name; bool is_str = false; bool is_signed = false; unsigned size = 0; uint64_t num = 0; std::string str; };
struct REvent { uint32_t klass; std::string name; uint64_t ts, id; size_t off, len; std::vector<RVal> vals; bool meta;
    const RVal* get(const char* n) const { for (auto& v : vals) if (v.name == n) return &v; return nullptr; }
    uint64_t num(const char* n) const { auto v = get(n); return v ? v->num : ~0ull; }
    std::string str(const char* n) const { auto v = get(n); return v ? v->str : std::string("(no field)"); } };
struct RDec
{
    std::map<uint32_t, RKlass> klasses;       // as announced
    std::vector<uint32_t> order;              // announcement order
    std::vector<REvent> events;               // everything, metadata included
    std::string error; size_t good = 0;       // bytes consumed by whole events
    const Bytes* b = nullptr; size_t p = 0;
    bool need(size_t n) { return p + n <= b->size(); }
    uint64_t num(unsigned n, bool sign) { uint64_t v = 0; memcpy(&v, b->data() + p, n); p += n; if (sign && n < 8 && (v >> (8 * n - 1))) v |= ~0ull << (8 * n); return v; }
    bool field(const RField& f, REvent& e, bool top)
    {
        if (f.dt == 1)
        {
            if (f.type == "HT_Event") return true;     // header, read already
            for (auto& k : klasses) if (k.second.name == f.type) { for (auto& g : k.second.fields) if (!field(g, e, false)) return false; return true; }
            error = "struct field of unknown class " + f.type; return false;
        }
        RVal v; v.name = f.name;
        if (f.dt == 2) { size_t q = b->find('\0', p); if (q == Bytes::npos) return false; v.is_str = true; v.str = b->substr(p, q - p); p = q + 1; }
        else if (f.dt == 3 || f.dt == 99) { if (!need(f.size)) return false; v.is_signed = f.dt == 3; v.size = f.size; v.num = num(f.size, v.is_signed); }
        else { error = "unsupported field type " + std::to_string(f.dt); return false; }
        e.vals.push_back(v); return true;
    }
    void run(const Bytes& bytes)
    {
        b = &bytes; p = 0;
        static const std::vector<RField> F0 = {{"endianness", "uint8_t", 99, 1}}, F2 = {{"info_klass_id", "", 99, 4}, {"event_klass_name", "", 2, 0}, {"field_count", "", 99, 1}},
            F3 = {{"info_klass_id", "", 99, 4}, {"field_type", "", 2, 0}, {"field_name", "", 2, 0}, {"size", "", 99, 8}, {"data_type", "", 99, 1}};
        while (p < bytes.size())
        {
            REvent e; e.off = p;
            if (!need(20)) return;
            e.klass = num(4, false); e.ts = num(8, false); e.id = num(8, false);
            e.meta = e.klass == 0 || e.klass == 2 || e.klass == 3;
            const std::vector<RField>* fs = nullptr; static const std::vector<RField> none;
            if (e.klass == 0) { fs = &F0; e.name = "HT_EndiannessInfoEvent"; }
            else if (e.klass == 1) { fs = &none; e.name = "HT_Event"; }
            else if (e.klass == 2) { fs = &F2; e.name = "HT_EventKlassInfoEvent"; }
            else if (e.klass == 3) { fs = &F3; e.name = "HT_EventKlassFieldInfoEvent"; }
            else
            {
                auto it = klasses.find(e.klass);
                if (it == klasses.end()) { error = "event of undescribed class " + std::to_string(e.klass) + " at offset " + std::to_string(e.off); return; }
                if (it->second.fields.size() != it->second.announced_fields) { error = "class " + it->second.name + " not fully described"; return; }
                fs = &it->second.fields; e.name = it->second.name;
            }
            for (auto& f : *fs) if (!field(f, e, true)) return;
            e.len = p - e.off; good = p;
            if (e.klass == 2)
            {
                uint32_t id = e.num("info_klass_id");
                if (klasses.count(id)) { error = "class " + e.str("event_klass_name") + " announced twice"; return; }
                klasses[id] = RKlass{id, e.str("event_klass_name"), (unsigned)e.num("field_count"), {}}; order.push_back(id);
            }
            if (e.klass == 3)
            {
                uint32_t id = e.num("info_klass_id");
                if (!klasses.count(id)) { error = "field of unannounced class"; return; }
                uint8_t dt = e.num("data_type");
                klasses[id].fields.push_back(RField{e.str("field_name"), e.str("field_type"), dt, e.num("size")});
            }
            events.push_back(e);
        }
    }
};
inline Bytes slurp(const std::string& path) { std::ifstream f(path, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
