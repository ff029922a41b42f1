// Reference encoder: builds event bytes by hand, independently of the library's macros.
#pragma once
#include <stdint.h>
#include <string.h>
#include <string>
#include <vector>
#include "ht_events.h"
#include <hawktracer.h>

typedef std::string Bytes;
template<class T> inline void put(Bytes& b, T v) { b.append((const char*)&v, sizeof v); }
inline void puts0(Bytes& b, const char* s) { b.append(s ? s : "", (s ? strlen(s) : 0) + 1); }
inline Bytes ref_head(uint32_t klass, uint64_t ts, uint64_t id) { Bytes b; put(b, klass); put(b, ts); put(b, id); return b; }
inline uint64_t get64(const Bytes& b, size_t o) { uint64_t v = 0; if (o + 8 <= b.size()) memcpy(&v, b.data() + o, 8); return v; }
inline uint32_t get32(const Bytes& b, size_t o) { uint32_t v = 0; if (o + 4 <= b.size()) memcpy(&v, b.data() + o, 4); return v; }

// One abstract event value: kind + fields, from which the C struct, the serialised bytes and the raw bytes are derived
struct Msg { uint64_t ts, id; uint32_t who, seq; std::string text; };
inline Bytes ref_msg(uint32_t klass, const Msg& m) { Bytes b = ref_head(klass, m.ts, m.id); put(b, m.who); put(b, m.seq); puts0(b, m.text.c_str()); return b; }
inline void push_msg(HT_Timeline* t, const Msg& m)
{
    EvMsg e; memset(&e, 0, sizeof e);
    e.base.klass = ht_EvMsg_get_event_klass_instance(); e.base.timestamp = m.ts; e.base.id = m.id;
    e.who = m.who; e.seq = m.seq; e.text = m.text.c_str();
    ht_timeline_push_event(t, (HT_Event*)&e);
}
inline std::string hexs(const Bytes& b, size_t max = 48) { std::string o; char t[4]; for (size_t i = 0; i < b.size() && i < max; i++) { snprintf(t, 4, "%02x", (unsigned char)b[i]); o += t; } if (b.size() > max) o += ".."; return o; }
