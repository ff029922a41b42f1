// P32: a description of a source leads to the file or the address it names, byte for byte, or to nothing.
#include "seq.hpp"
#include <hawktracer/client_utils/stream_factory.hpp>
#include <arpa/inet.h>
#include <sys/socket.h>
#include <unistd.h>
#include <atomic>
#include <fstream>
#include <iostream>
#include <memory>
#include <string>
#include <vector>
#include <dlfcn.h>
#include <errno.h>
#include <string.h>
#include <sys/stat.h>
using HawkTracer::ClientUtils::make_stream_from_string; typedef std::unique_ptr<HawkTracer::parser::Stream> Str;
// ---- the network: one peer, which accepts every connection, sends what it has and closes ----
static const int FD = 900; static std::string g_sent; static std::atomic<size_t> g_at{0}, g_piece{0}; static std::atomic<bool> g_down{false}, g_open{false}; static std::vector<std::pair<uint32_t, unsigned>> g_to; static bool g_stream_socket;
extern "C" int socket(int d, int t, int) { g_stream_socket = d == AF_INET && (t & 0xf) == SOCK_STREAM; g_at = 0; g_down = false; g_open = true; return FD; }
extern "C" int connect(int fd, const struct sockaddr* a, socklen_t n)
{
    auto i = (const sockaddr_in*)a; if (fd != FD || n < sizeof *i || i->sin_family != AF_INET || !g_stream_socket) { errno = EINVAL; return -1; }
    g_to.push_back({ntohl(i->sin_addr.s_addr), ntohs(i->sin_port)}); if (g_to.size() > 3) seq::fail("connects over and over"); return 0;
}
static ssize_t give(void* b, size_t n) { size_t at = g_at, k = g_sent.size() - at; if (g_down || !k) return 0; if (k > n) k = n; if (g_piece && k > g_piece) k = g_piece; memcpy(b, &g_sent[at], k); g_at = at + k; return (ssize_t)k; }
extern "C" ssize_t recv(int, void* b, size_t n, int) { return give(b, n); }
extern "C" ssize_t read(int fd, void* b, size_t n) { if (fd == FD) return give(b, n); static ssize_t (*r)(int, void*, size_t) = (ssize_t (*)(int, void*, size_t))dlsym(RTLD_NEXT, "read"); return r(fd, b, n); }
extern "C" int shutdown(int, int) { g_down = true; return 0; }
extern "C" int close(int fd) { if (fd == FD) { g_open = false; return 0; } static int (*c)(int) = (int (*)(int))dlsym(RTLD_NEXT, "close"); return c(fd); }
static void quiet() { static bool done; if (chdir(seq::scratch().c_str())) seq::fail("harness: chdir"); if (!done) { done = true; std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr); } g_to.clear(); g_sent = "some bytes"; g_piece = 0; }
static std::string esc(const std::string& s) { std::string o; char b[8]; for (unsigned char c : s) if (c > 32 && c < 127) o += c; else { snprintf(b, sizeof b, "\\%02x", c); o += b; } return o; }
static std::string drain(HawkTracer::parser::Stream& s, bool blocks)
{
    std::string o; if (!blocks) { int c; while ((c = s.read_byte()) >= 0) { o += (char)c; if (o.size() > 100000) seq::fail("the stream never ends"); } SEQ_CHECK(s.read_byte() < 0, "a byte after the end"); return o; }
    char b[3]; while (s.read_data(b, 1)) { o += b[0]; if (o.size() > 100000) seq::fail("the stream never ends"); } SEQ_CHECK(!s.read_data(b, 2), "data after the end"); return o;
}
// ---- what a description says: a.b.c.d or a.b.c.d:port, plain decimal numbers; of other strings with at least four numbers only that they lead nowhere else ----
struct Said { bool plain = false; std::vector<unsigned long long> n; bool zeros = false, exact = false; };
static Said understand(const std::string& s)
{
    Said r; std::string shape; for (size_t i = 0; i < s.size();)
    {
        if (!isdigit((unsigned char)s[i])) { shape += s[i++]; continue; }
        size_t b = i; unsigned long long v = 0; for (; i < s.size() && isdigit((unsigned char)s[i]); i++) v = v > 100000000000ull ? v : v * 10 + (s[i] - '0');
        if (i - b > 1 && s[b] == '0') r.zeros = true; r.n.push_back(v); shape += 'n';      // leading zeros mean different things to different people
    }
    r.exact = shape == "n.n.n.n:n"; r.plain = !r.zeros && (shape == "n.n.n.n" || shape == "n.n.n.n:n" || shape == "n.n.n.n:" || shape == "n.n.n.n:x"); for (size_t i = 0; i < r.n.size() && i < 5; i++) if (r.n[i] > (i < 4 ? 255u : 65535u)) r.plain = false;
    return r;
}
static bool meant(const Said& w, uint32_t ip, unsigned port)
{
    if (w.n.size() < 4) return false; for (int i = 0; i < 4; i++) if (w.n[i] > 255 || w.n[i] != (ip >> (24 - 8 * i) & 255)) return false;
    return w.n.size() > 4 ? port == w.n[4] || (!w.exact && port == 8765) : port == 8765;
}
static void follow(const std::string& d, bool blocks = false)
{
    Said w = understand(d); Str s = make_stream_from_string(d); std::string o = s ? "stream" : "none"; seq::note("\"%s\"; ", esc(d).c_str());
    if (w.n.size() < 4) SEQ_CHECK(!s, "\"%s\" is neither a file nor an address, and is taken for one", esc(d).c_str());
    if (w.plain) SEQ_CHECK(s != nullptr, "the address %s is refused", esc(d).c_str());
    if (s)
    {
        SEQ_CHECK(s->is_continuous(), "%s: a connection that is not continuous", esc(d).c_str()); SEQ_CHECK(g_to.empty(), "%s: connects before it is started", esc(d).c_str());
        bool up = s->start(); if (w.plain) SEQ_CHECK(up && g_to.size() == 1, "%s: %zu connections", esc(d).c_str(), g_to.size());
        if (!w.zeros) for (auto& t : g_to) SEQ_CHECK(meant(w, t.first, t.second), "\"%s\" leads to %u.%u.%u.%u:%u", esc(d).c_str(), t.first >> 24, t.first >> 16 & 255, t.first >> 8 & 255, t.first & 255, t.second);
        if (up) { std::string got = drain(*s, blocks); SEQ_CHECK(got == g_sent, "%s: read \"%s\"", esc(d).c_str(), esc(got).c_str()); o += std::to_string(g_to[0].second); } s->stop(); s.reset(); SEQ_CHECK(!g_open, "the connection is left open");
    }
    seq::step(); seq::state(d); seq::outcome(o);
}
static void s_addresses()
{
    quiet(); static const char* const n[] = {"0", "1", "10", "127", "200", "255", "256", "4294967297"}; static const char* const p[] = {"", ":1", ":80", ":8765", ":10000", ":32768", ":65535", ":65536", ":74301", ":4294967376"};
    std::string d; for (int i = 0; i < 4; i++) d += std::string(i ? "." : "") + n[seq::choose(seq::thorough() ? 8 : 6 + (i % 2) * 2)]; follow(d + p[seq::choose(10)]);
}
static void s_ports() { quiet(); int p = seq::choose(seq::thorough() ? 700 : 70) * 1000; p += seq::choose(1000); follow("127.0.0.1:" + std::to_string(p), p % 2); }
static void s_octets() { quiet(); int at = seq::choose(4), v = seq::choose(1100); std::string d; for (int i = 0; i < 4; i++) d += (i ? "." : "") + std::to_string(i == at ? v : i + 1); follow(d + (v % 2 ? ":99" : "")); }
static void s_strings()
{
    quiet(); static const char A[] = "1.:x -0"; std::string d; if (seq::choose(2)) { d = "1.2.3."; } int n = seq::choose(seq::thorough() ? 9 : 8); for (int i = 0; i < n; i++) d += A[seq::choose(7)]; if (d == "." || d == "..") { seq::discard(); return; } follow(d);
}
// ---- files ----
static void s_files()
{
    quiet(); static const char* const nm[] = {"a.htdump", "127.0.0.1", "1.2.3.4:80", "x", " ", "sp ace", "1.2.3", "-", "localhost:8765", "\xc3\xa9", "300.1.1.1"}; static const size_t sz[] = {0, 1, 2, 3, 4095, 4096, 4097, 20000};
    std::string name = nm[seq::choose(11)], data; size_t n = sz[seq::choose(8)]; int kind = seq::choose(3), mode = seq::choose(3), form = seq::choose(3); for (size_t i = 0; i < n; i++) data += kind == 0 ? '\xff' : kind == 1 ? (char)i : '\0';
    { std::ofstream f(name, std::ios::binary); f << data; } std::string d = form == 0 ? name : form == 1 ? "./" + name : seq::scratch() + "/" + name;
    Str s = make_stream_from_string(d); SEQ_CHECK(s != nullptr, "the file \"%s\" is refused", esc(d).c_str()); SEQ_CHECK(!s->is_continuous(), "the file %s is continuous", esc(d).c_str());
    for (int round = 0; round < 2; round++)
    {
        SEQ_CHECK(s->start(), "%s: cannot be started", esc(d).c_str()); std::string got; if (mode < 2) got = drain(*s, mode); else { std::string b(n / 2 + 1, 0); if (n / 2) { SEQ_CHECK(s->read_data(&b[0], n / 2), "half a file is not there"); got = b.substr(0, n / 2); } got += drain(*s, false); }
        SEQ_CHECK(got == data, "%s: %zu bytes read instead of %zu, or others", esc(d).c_str(), got.size(), n); if (round || kind) s->stop();
    }
    s.reset(); SEQ_CHECK(g_to.empty(), "%s: connects instead of reading", esc(d).c_str()); unlink(name.c_str()); if (understand(name).n.size() < 4) SEQ_CHECK(!make_stream_from_string(name), "the file %s, which has gone, is not refused", esc(name).c_str());
    seq::note("file %s of %zu bytes; ", name.c_str(), n); seq::step(); seq::state(d + std::to_string(n) + std::to_string(kind)); seq::outcome(data.substr(0, 5));
}
int main(int argc, char** argv)
{
    static const seq::Scenario s[] = {{"addresses", s_addresses, 0, false}, {"ports", s_ports, 0, false}, {"octets", s_octets, 0, false}, {"strings", s_strings, 0, false}, {"files", s_files, 0, false}};
    return seq::main(argc, argv, s, sizeof s / sizeof s[0]);
}
