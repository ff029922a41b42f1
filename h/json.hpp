// A strict JSON reader (RFC 8259, UTF-8, no duplicate keys) for the Chrome converter's output.
#pragma once
#include <memory>
#include <stdint.h>
#include <string>
#include <utility>
#include <vector>
struct Json
{
    enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL; std::string s; std::vector<Json> a; std::vector<std::pair<std::string, Json>> o;
    const Json* get(const char* k) const { for (auto& x : o) if (x.first == k) return &x.second; return nullptr; }
};
struct JsonParser
{
    const std::string& b; size_t p = 0; std::string err; JsonParser(const std::string& x) : b(x) {}
    bool bad(const char* m) { if (err.empty()) err = std::string(m) + " at offset " + std::to_string(p) + ": " + b.substr(p > 20 ? p - 20 : 0, 60); return false; }
    void ws() { while (p < b.size() && (b[p] == ' ' || b[p] == '\t' || b[p] == '\n' || b[p] == '\r')) p++; }
    static void utf8(std::string& o, uint32_t c) { if (c < 0x80) o += (char)c; else if (c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } else { o += (char)(0xf0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } }
    bool hex4(uint32_t& v) { v = 0; for (int i = 0; i < 4; i++, p++) { if (p >= b.size()) return bad("short escape"); char c = b[p]; v = v * 16 + (c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99999); if (v > 0xffff) return bad("bad escape"); } return true; }
    bool str(std::string& o)
    {
        if (p >= b.size() || b[p] != '"') return bad("string expected"); p++;
        for (;;)
        {
            if (p >= b.size()) return bad("unterminated string"); unsigned char c = b[p];
            if (c == '"') { p++; return true; }
            if (c < 0x20) return bad("control character in string");
            if (c == '\\')
            {
                p++; if (p >= b.size()) return bad("unterminated string"); char e = b[p++]; uint32_t v, w;
                switch (e) { case '"': case '\\': case '/': o += e; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
                case 'u': if (!hex4(v)) return false; if (v >= 0xd800 && v < 0xdc00) { if (b.compare(p, 2, "\\u")) return bad("lone surrogate"); p += 2; if (!hex4(w)) return false; if (w < 0xdc00 || w > 0xdfff) return bad("lone surrogate"); v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00); } else if (v >= 0xdc00 && v <= 0xdfff) return bad("lone surrogate"); utf8(o, v); break;
                default: return bad("bad escape"); }
            }
            else if (c < 0x80) { o += c; p++; }
            else { int n = c >= 0xf0 && c < 0xf5 ? 3 : c >= 0xe0 ? 2 : c >= 0xc2 ? 1 : 0; if (!n || c >= 0xf5) return bad("bad UTF-8"); o += c; p++; while (n--) { if (p >= b.size() || ((unsigned char)b[p] & 0xc0) != 0x80) return bad("bad UTF-8"); o += b[p++]; } }
        }
    }
    bool digits() { size_t q = p; while (p < b.size() && b[p] >= '0' && b[p] <= '9') p++; return p > q || bad("digit expected"); }
    bool value(Json& j)
    {
        ws(); if (p >= b.size()) return bad("value expected"); char c = b[p];
        if (c == '{')
        {
            j.t = Json::OBJ; p++; ws(); if (p < b.size() && b[p] == '}') { p++; return true; }
            for (;;) { ws(); std::string k; if (!str(k)) return false; if (j.get(k.c_str())) return bad("key twice"); ws(); if (p >= b.size() || b[p] != ':') return bad("colon expected"); p++; j.o.emplace_back(k, Json()); if (!value(j.o.back().second)) return false; ws(); if (p < b.size() && b[p] == ',') { p++; continue; } if (p < b.size() && b[p] == '}') { p++; return true; } return bad("comma or brace expected"); }
        }
        if (c == '[')
        {
            j.t = Json::ARR; p++; ws(); if (p < b.size() && b[p] == ']') { p++; return true; }
            for (;;) { j.a.emplace_back(); if (!value(j.a.back())) return false; ws(); if (p < b.size() && b[p] == ',') { p++; continue; } if (p < b.size() && b[p] == ']') { p++; return true; } return bad("comma or bracket expected"); }
        }
        if (c == '"') { j.t = Json::STR; return str(j.s); }
        if (!b.compare(p, 4, "true") || !b.compare(p, 4, "null")) { j.t = c == 't' ? Json::BOOL : Json::NUL; p += 4; return true; }
        if (!b.compare(p, 5, "false")) { j.t = Json::BOOL; p += 5; return true; }
        j.t = Json::NUM; size_t q = p; if (c == '-') p++;
        if (p < b.size() && b[p] == '0') p++; else if (!digits()) return false;
        if (p < b.size() && b[p] == '.') { p++; if (!digits()) return false; }
        if (p < b.size() && (b[p] == 'e' || b[p] == 'E')) { p++; if (p < b.size() && (b[p] == '+' || b[p] == '-')) p++; if (!digits()) return false; }
        j.s = b.substr(q, p - q); return true;
    }
    bool document(Json& j) { if (!value(j)) return false; ws(); return p == b.size() || bad("text after the document"); }
};
