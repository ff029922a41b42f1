// P26: the CPU and memory probes against a simulated kernel (files below /proc, clock, page size, clock ticks).
#include "seq.hpp"
#include "fakeclock.hpp"
#include <hawktracer/cpu_usage.h>
#include <hawktracer/memory_usage.h>
#include <hawktracer/monotonic_clock.h>
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <vector>
static bool g_on = false; static int g_self = 4711, g_pid = 0; static long g_tck = 100, g_page = 4096; static std::string g_bad;
enum { OK, MISSING, EMPTY, SHORT, NSTATES };
static int g_opened = 0;
static bool ours(const char* p) { return g_on && !strncmp(p, "/proc/", 6); }
static std::string place(const char* p)    // where the simulated kernel keeps the file
{
    char want[64]; const char* q = p + 6; g_opened++;
    snprintf(want, sizeof want, "%d/", g_pid);
    if (!strncmp(q, "self/", 5) && g_pid == g_self) q += 5; else if (!strncmp(q, want, strlen(want))) q += strlen(want); else return seq::scratch() + "/no_such_process";
    std::string f = q; for (char& c : f) if (c == '/') c = '_';
    return seq::scratch() + "/proc_" + f;
}
extern "C" {
FILE* __real_fopen(const char*, const char*); FILE* __wrap_fopen(const char* p, const char* m) { return ours(p) ? __real_fopen(place(p).c_str(), m) : __real_fopen(p, m); }
FILE* __real_fopen64(const char*, const char*); FILE* __wrap_fopen64(const char* p, const char* m) { return ours(p) ? __real_fopen(place(p).c_str(), m) : __real_fopen(p, m); }
int __real_open(const char*, int, ...); int __wrap_open(const char* p, int fl, ...) { va_list a; va_start(a, fl); int mode = va_arg(a, int); va_end(a); return ours(p) ? __real_open(place(p).c_str(), fl, mode) : __real_open(p, fl, mode); }
int __wrap_open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); int mode = va_arg(a, int); va_end(a); return ours(p) ? __real_open(place(p).c_str(), fl, mode) : __real_open(p, fl, mode); }
int __wrap_openat(int, const char* p, int fl, ...) { va_list a; va_start(a, fl); int mode = va_arg(a, int); va_end(a); return ours(p) ? __real_open(place(p).c_str(), fl, mode) : __real_open(p, fl, mode); }
long __real_sysconf(int); long __wrap_sysconf(int n) { return !g_on ? __real_sysconf(n) : n == _SC_CLK_TCK ? g_tck : n == _SC_PAGESIZE ? g_page : __real_sysconf(n); }
int __real_getpagesize(void); int __wrap_getpagesize(void) { return g_on ? (int)g_page : __real_getpagesize(); }
int __real_getpid(void); int __wrap_getpid(void) { return g_on ? g_self : __real_getpid(); }
}
static void put(const char* name, int state, const std::string& text)
{
    std::string p = seq::scratch() + "/proc_" + name;
    if (state == MISSING) { unlink(p.c_str()); return; }
    FILE* f = __real_fopen(p.c_str(), "w"); if (!f) seq::fail("cannot write %s", p.c_str());
    size_t n = state == EMPTY ? 0 : state == SHORT ? text.size() / 8 : text.size(); fwrite(text.data(), 1, n, f); fclose(f);
}
static const char* const COMM[] = {"app", "", "a b", "x) (y", ") S 1 2 3 4", ")", "((((", "123456789012345", "kworker/0:1-ev)", "1 2 3 4 5 6 7 8"};
static std::string stat(const char* comm, uint64_t ut, uint64_t st, int fields)
{
    char b[1024]; static const char* const F[] = {"1 1 1 0 -1 4194560 0 0 0 0", "4294967 2147483647 -1 34816 2147483647 4294967295 18446744073709551615 18446744073709551615 18446744073709551615 18446744073709551615", "0 0 0 0 0 0 0 0 0 0"};
    snprintf(b, sizeof b, "%d (%s) %c %s %llu %llu 17 18 20 0 1 0 12345 3000000 400 18446744073709551615 94000000000000 94000000010000 140000000000000 0 0 0 0 0 4096 16384 1 0 0 17 3 0 0 0 0 0 94000000000 94000000010 94000001000 140000000100 140000000200 140000000300 140000000400 0\n", g_pid, comm, "RSDZ"[fields & 3], F[fields % 3], (unsigned long long)ut, (unsigned long long)st);
    return b;
}
static std::string g_log; static void setup(bool other) { g_log.clear(); g_pid = other ? 99 + seq::choose(2) * 4194304 : g_self; g_on = true; fake_ns = 5000000000ull; fake_on = true; }
static void say(const char* fmt, ...) __attribute__((format(printf, 1, 2))); static void say(const char* fmt, ...) { char b[200]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); g_log += b; seq::note("%s", b); }
static void probes(const char* comm, int fields, uint64_t ut, uint64_t st, int n, bool other, bool faults)
{
    static const uint64_t DT[] = {1000000000ull, 1000000ull, 250000000ull, 86400000000000ull * 30}, DU[] = {0, 1, 100, 123456789}; static const int NDT = 4, NDU = 4;
    put("stat", OK, stat(comm, ut, st, fields));
    HT_CPUUsageContext* c = ht_cpu_usage_context_create(other ? &g_pid : nullptr); SEQ_CHECK(c, "no context");
    uint64_t at = fake_ns, used = ut + st; say("comm '%s' pid %d tck %ld: ", comm, g_pid, g_tck);
    for (int i = 0; i < n; i++)
    {
        fake_ns += DT[seq::choose(NDT)]; ut += DU[seq::choose(NDU)]; st += DU[seq::choose(faults ? 2 : NDU)]; int state = faults ? seq::choose(NSTATES) : OK;
        put("stat", state, stat(comm, ut, st, fields)); float v = ht_cpu_usage_get_percentage(c); say("%s%llu/%llu ", state == OK ? "" : state == MISSING ? "missing " : "unreadable ", (unsigned long long)(ut + st - used), (unsigned long long)(fake_ns - at));
        if (state != OK) { SEQ_CHECK(v < 0, "the process could not be read, but the usage is %f", v); }
        else
        {
            double want = 100.0 * (double)(ut + st - used) / ((double)g_tck * ((double)(fake_ns - at) / 1e9));
            SEQ_CHECK(fabs(v - want) <= want * 1e-4 + 1e-6, "usage %f, expected %f", v, want); at = fake_ns; used = ut + st; seq::outcome(&v, sizeof v);
        }
        seq::step(); seq::state(g_log);
    }
    ht_cpu_usage_context_destroy(c); g_on = fake_on = false;
}
static void s_cpu_comm()   // every command name x other fields x process
{
    const char* comm = COMM[seq::choose(sizeof COMM / sizeof *COMM)]; int f = seq::choose(4); setup(seq::choose(2)); static const uint64_t B[] = {4294967295ull, 0, 5, 1ull << 45}; int nb = seq::thorough() ? 4 : 2;
    uint64_t ut = B[seq::choose(nb)], st = B[seq::choose(nb)]; probes(comm, f, ut, st, 1, g_pid != g_self, false);
}
static void s_cpu_histories() { setup(seq::choose(2) != 0); probes("a (b", 0, 10, 20, seq::thorough() ? 4 : 2, g_pid != g_self, true); }
static void s_machine()    // every tick rate and page size (one process each: a program may ask for them once)
{
    static const long T[] = {100, 1, 250, 1000}, P[] = {4096, 16384, 65536}; g_tck = T[seq::choose(4)]; g_page = P[seq::choose(3)]; setup(false); probes("app", 0, 3, 4, 1, false, false); setup(false); put("statm", OK, "1000 20 3 1 0 1 0\n"); size_t v = 0, r = 0, s = 0; HT_MemoryUsageContext* c = ht_memory_usage_context_create(nullptr);
    SEQ_CHECK(c && ht_memory_usage_get_usage(c, &v, &s, &r) == HT_ERR_OK && v == 1000u * g_page && r == 20u * g_page && s == 3u * g_page, "page size %ld: %zu %zu %zu", g_page, v, r, s); ht_memory_usage_context_destroy(c); seq::step();
}
static void s_cpu_two()    // two contexts do not disturb each other, and creation without a process is survived
{
    setup(false); put("stat", seq::choose(2) ? OK : MISSING, stat("x", 5, 5, 0)); HT_CPUUsageContext* a = ht_cpu_usage_context_create(nullptr); put("stat", OK, stat("x", 5, 5, 0)); SEQ_CHECK(a, "no context"); float v0 = ht_cpu_usage_get_percentage(a); (void)v0;
    HT_CPUUsageContext* b = ht_cpu_usage_context_create(nullptr); uint64_t ta = fake_ns, tb = fake_ns, ua = 10, ub = 10, u = 10;
    for (int i = 0; i < (seq::thorough() ? 5 : 4); i++)
    {
        uint64_t d = seq::choose(3); fake_ns += 500000000ull * (1 + seq::choose(2)); u += d * 10; put("stat", OK, stat("x", 5, u - 5, 0)); bool first = seq::choose(2); uint64_t& t = first ? ta : tb; uint64_t& uu = first ? ua : ub;
        float v = ht_cpu_usage_get_percentage(first ? a : b); double want = 100.0 * (u - uu) / (g_tck * ((fake_ns - t) / 1e9)); SEQ_CHECK(fabs(v - want) <= want * 1e-4 + 1e-6, "context %d: usage %f, expected %f", first, v, want); t = fake_ns; uu = u; seq::step(); seq::outcome(&v, sizeof v);
    }
    ht_cpu_usage_context_destroy(a); ht_cpu_usage_context_destroy(b); g_on = fake_on = false;
}
static void s_memory()     // every value of every column x every subset of outputs x every state of the file
{
    g_on = false; setup(seq::choose(2)); bool other = g_pid != g_self; static const uint64_t V[] = {0, 1ull << 47, 25, 4294967296ull, 1}; uint64_t v[3]; for (auto& x : v) x = V[seq::choose(seq::thorough() ? 5 : 3)];
    int which = seq::choose(8), state = seq::choose(NSTATES); char b[200]; snprintf(b, sizeof b, "%llu %llu %llu %s\n", (unsigned long long)v[0], (unsigned long long)v[1], (unsigned long long)v[2], v[0] ? "12 0 34 0" : "0 0 0 0"); if (state == SHORT && strchr(b, ' ') - b > (long)strlen(b) / 8) state = EMPTY;
    put("statm", state, b); HT_MemoryUsageContext* c = ht_memory_usage_context_create(other ? &g_pid : nullptr); SEQ_CHECK(c, "no context");
    size_t out[3] = {77, 77, 77}; seq::note("statm '%.40s' state %d outputs %d page %ld pid %d ", b, state, which, g_page, g_pid);
    HT_ErrorCode e = ht_memory_usage_get_usage(c, which & 1 ? &out[0] : nullptr, which & 4 ? &out[2] : nullptr, which & 2 ? &out[1] : nullptr);
    for (int i = 0; i < 3; i++)
        if (!(which >> i & 1) || (state != OK && e != HT_ERR_OK)) SEQ_CHECK(out[i] == 77, "output %d was changed", i);
        else if (state == OK) SEQ_CHECK(out[i] == (size_t)(v[i] * (uint64_t)g_page), "%s memory: %zu, expected %zu", i == 0 ? "virtual" : i == 1 ? "resident" : "shared", out[i], (size_t)(v[i] * (uint64_t)g_page));
    if (which) { SEQ_CHECK((e == HT_ERR_OK) == (state == OK), "returned %d", (int)e); if (state == MISSING) SEQ_CHECK(e == HT_ERR_CANT_OPEN_FILE, "returned %d for a process that does not exist", (int)e); } else SEQ_CHECK(e == HT_ERR_OK, "returned %d though nothing was asked for", (int)e);
    SEQ_CHECK(ht_memory_usage_get_usage(nullptr, &out[0], &out[1], &out[2]) == HT_ERR_INVALID_ARGUMENT, "no context, but no error");
    ht_memory_usage_context_destroy(c); g_on = fake_on = false; seq::step(); seq::outcome(out, sizeof out); seq::state(std::string(b) + (char)which + (char)state);
}
int main(int argc, char** argv)
{
    static const seq::Scenario s[] = {{"cpu_comm", s_cpu_comm, 0, false}, {"cpu_histories", s_cpu_histories, 0, false}, {"cpu_two", s_cpu_two, 0, false}, {"machine", s_machine, 0, true}, {"memory", s_memory, 0, false}};
    return seq::main(argc, argv, s, sizeof s / sizeof s[0]);
}
