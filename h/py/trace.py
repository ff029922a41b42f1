"""Reference encoder of traces (written from docs/design/htdump_format.md) and of the values a reader must report."""
import struct
SIGNED, UNSIGNED, STR, STRUCT = 3, 99, 2, 1
INTS = {"int8_t": ("b", 1, SIGNED), "uint8_t": ("B", 1, UNSIGNED), "int16_t": ("h", 2, SIGNED), "uint16_t": ("H", 2, UNSIGNED),
        "int32_t": ("i", 4, SIGNED), "uint32_t": ("I", 4, UNSIGNED), "int64_t": ("q", 8, SIGNED), "uint64_t": ("Q", 8, UNSIGNED)}
def cstr(s): return (s if isinstance(s, bytes) else s.encode()) + b"\0"
class Trace:
    def __init__(self): self.n = 0; self.k = 100; self.b = self.head(0, 0) + b"\0"; self.classes = {}; self.expected = []
    def head(self, klass, ts): self.n += 1; return struct.pack("<IQQ", klass, ts, self.n)
    def klass(self, name, *fields):
        kid = self.k; self.k += 1; self.classes[name] = (kid, fields)
        self.b += self.head(2, 5) + struct.pack("<I", kid) + cstr(name) + struct.pack("<B", len(fields) + 1)
        self.field(kid, "HT_Event", "base", 20, STRUCT)
        for ty, f in fields:
            if ty == "string": self.field(kid, "const char*", f, 8, STR)
            else: self.field(kid, ty, f, INTS[ty][1], INTS[ty][2])
        return self
    def field(self, kid, ty, name, size, dt): self.b += self.head(3, 6) + struct.pack("<I", kid) + cstr(ty) + cstr(name) + struct.pack("<QB", size, dt)
    def event(self, name, *values, ts=7):
        kid, fields = self.classes[name]; b = self.head(kid, ts); d = {"timestamp": ts, "id": self.n, "klass_id": kid}
        for (ty, f), v in zip(fields, values):
            if ty == "string": b += cstr(v); d[f] = v
            else: b += struct.pack("<" + INTS[ty][0], v); d[f] = v
        self.b += b; self.expected.append((name, d)); return self
    def write(self, path):
        with open(path, "wb") as f: f.write(self.b)
        return path
OWN = ("HT_EventKlassInfoEvent", "HT_EventKlassFieldInfoEvent", "HT_EndiannessInfoEvent")
def decode(b):
    """Reference decoder: [(class name, {field: value})], from the class descriptions in the trace (docs/design/htdump_format.md)"""
    pos = 0; out = []; names = {}
    fields = {1: [("klass_id", "I", 0), ("timestamp", "Q", 0), ("id", "Q", 0)], 0: [("endianness", "B", 0)], 2: [("info_klass_id", "I", 0), ("event_klass_name", "s", 0), ("field_count", "B", 0)],
              3: [("info_klass_id", "I", 0), ("field_type", "s", 0), ("field_name", "s", 0), ("size", "Q", 0), ("data_type", "B", 0)]}
    name_of = {1: "HT_Event", 0: "HT_EndiannessInfoEvent", 2: "HT_EventKlassInfoEvent", 3: "HT_EventKlassFieldInfoEvent"}; known = {v: k for k, v in name_of.items()}
    def read(fl, d):
        nonlocal pos
        for f, c, kid in fl:
            if c == "s":
                e = b.index(b"\0", pos); d[f] = b[pos:e]; pos = e + 1
            elif c == "struct":
                if kid != 1: read(fields[kid], d)          # the base of all events has been read already
            else:
                n = struct.calcsize("<" + c); d[f], = struct.unpack("<" + c, b[pos:pos + n]); pos += n
    def field(d):
        t, size, dt = d["field_type"].decode(), d["size"], d["data_type"]
        if dt == STR: return (d["field_name"].decode(), "s", 0)
        if dt == STRUCT: return (d["field_name"].decode(), "struct", known[t])
        return (d["field_name"].decode(), ("b", "h", "i", "q")[(1, 2, 4, 8).index(size)] if dt == SIGNED else ("B", "H", "I", "Q")[(1, 2, 4, 8).index(size)], 0)
    while pos < len(b):
        d = {}; read(fields[1], d); k = d["klass_id"]
        if k == 1: out.append(("HT_Event", d)); continue
        if k not in fields: raise ValueError("event of the unknown class %d" % k)
        body = {}; read(fields[k], body)
        body.update(d); out.append((name_of[k], body))
        if k == 2 and body["info_klass_id"] > 3: i = body["info_klass_id"]; name_of[i] = body["event_klass_name"].decode(); known[name_of[i]] = i; fields.setdefault(i, [])
        if k == 3 and body["info_klass_id"] > 3: fields[body["info_klass_id"]].append(field(body))
    return out
