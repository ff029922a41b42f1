#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "seq.hpp"
#include <errno.h>
#include <dirent.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace seq {
namespace {
enum { MAXD = 512, MSG = 2000, NOTE = 1500, SLOTS = 1 << 20, POOL = 65536, NSAMPLE = 6 };
struct Item { uint16_t n; uint16_t c[MAXD]; };
struct Area                                              // one per worker
{
    volatile uint32_t nchoices; volatile uint32_t status; // 0 running 1 ok 2 failed 5 internal 6 idle 7 discarded
    volatile uint64_t started_ms; volatile uint64_t execs;
    uint16_t chosen[MAXD], arity[MAXD];
    char msg[MSG]; char note[NOTE]; uint32_t nnote;
    uint64_t out; uint32_t has_out;
    volatile uint64_t steps;
};
struct Shared
{
    volatile int lock, stop, deadline, overflow, waiting, failed, nsample; volatile int alive;
    volatile uint32_t nitems;
    volatile uint64_t executions, discarded, choices, steps, maxd, nstates, nout;
    volatile uint64_t states[SLOTS], outs[SLOTS / 4];
    Item fail; char fail_msg[MSG]; char fail_note[NOTE];
    char sample[NSAMPLE][NOTE];
    Item items[POOL];
};
Shared* S; Area* A; bool g_thorough; double g_deadline; std::string g_scratch;
const Item* g_prefix; int g_limit = 20;
double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
void lock() { while (__atomic_exchange_n(&S->lock, 1, __ATOMIC_ACQUIRE)) sched_yield(); }
void unlock() { __atomic_store_n(&S->lock, 0, __ATOMIC_RELEASE); }
uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) { const unsigned char* b = (const unsigned char*)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; } h ^= h >> 29; return h ? h : 1; }
bool insert(volatile uint64_t* tab, size_t slots, uint64_t h, volatile uint64_t* cnt)
{
    if (*cnt > slots * 3 / 4) return false;
    for (size_t i = h & (slots - 1);; i = (i + 1) & (slots - 1))
    {
        uint64_t e = __atomic_load_n(&tab[i], __ATOMIC_RELAXED);
        if (e == h) return false;
        if (e) continue;
        if (__atomic_compare_exchange_n(&tab[i], &e, h, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) { __atomic_add_fetch(cnt, 1, __ATOMIC_SEQ_CST); return true; }
        if (e == h) return false;
    }
}
void begin(const Item* p)
{
    g_prefix = p; A->nchoices = 0; A->msg[0] = 0; A->note[0] = 0; A->nnote = 0; A->out = 1469598103934665603ull; A->has_out = 0; A->steps = 0;
    A->started_ms = (uint64_t)(now() * 1000); A->status = 0;
}
void rmdir_r(const std::string& d)
{
    DIR* q = opendir(d.c_str());
    if (!q) return;
    while (struct dirent* e = readdir(q)) { std::string n = e->d_name; if (n == "." || n == "..") continue; unlink((d + "/" + n).c_str()); }
    closedir(q); ::rmdir(d.c_str());
}
bool waits_for_disk(pid_t pid)
{
    std::string d = "/proc/" + std::to_string(pid) + "/task"; bool r = false; DIR* q = opendir(d.c_str()); if (!q) return false;
    while (struct dirent* e = readdir(q))
    {
        if (e->d_name[0] == '.') continue;
        char b[512]; FILE* f = fopen((d + "/" + e->d_name + "/stat").c_str(), "r"); if (!f) continue;
        size_t k = fread(b, 1, sizeof b - 1, f); b[k] = 0; fclose(f); const char* c = strrchr(b, ')'); if (c && c[1] && c[2] == 'D') r = true;
    }
    closedir(q); return r;
}
// Runs one execution in this process. Failures end the process.
void run_inline(const Scenario* sc, const Item* p) { begin(p); sc->body(); if (A->nchoices < p->n) { snprintf(A->msg, MSG, "divergence: execution used %u of %u decisions", A->nchoices, p->n); A->status = 5; } else if (A->status == 0) A->status = 1; }
int run_forked(const Scenario* sc, const Item* p, int limit, const char* errfile)
{
    fflush(0);
    A->status = 0; A->msg[0] = 0;
    pid_t pid = fork();
    if (pid == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        alarm(limit);
        if (errfile) { if (!freopen(errfile, "w", stderr)) _exit(96); }
        run_inline(sc, p);
        _exit(A->status == 1 || A->status == 7 ? 0 : 9);
    }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (A->status == 0)
    {
        A->status = 2;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) snprintf(A->msg, MSG, "hang: no end within %d s", limit);
        else if (WIFSIGNALED(st)) snprintf(A->msg, MSG, "crash: signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) snprintf(A->msg, MSG, "crash: memory error reported by AddressSanitizer");
        else snprintf(A->msg, MSG, "the process ended in the middle (exit status %d)", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
        if (errfile) if (FILE* f = fopen(errfile, "r"))
        {
            char line[400]; int k = 0; size_t n = strlen(A->msg);
            while (fgets(line, sizeof line, f) && k < 14)
                if (strstr(line, "ERROR:") || strstr(line, "    #") || strstr(line, "terminate") || strstr(line, "what()")) { line[strcspn(line, "\n")] = 0; n += snprintf(A->msg + n, MSG - n, " | %s", line); k++; if (n >= MSG - 1) break; }
            fclose(f);
        }
    }
    return A->status;
}
void report_fail(const Item* it)
{
    lock();
    if (!S->failed)
    {
        S->failed = A->status; S->fail = *it;
        S->fail.n = A->nchoices > MAXD ? MAXD : A->nchoices; memcpy(S->fail.c, A->chosen, S->fail.n * sizeof S->fail.c[0]);
        memcpy(S->fail_msg, A->msg, MSG); memcpy(S->fail_note, A->note, NOTE); S->stop = 1;
    }
    unlock();
}
void finish(const Item&)
{
    if (A->status == 7) { __atomic_add_fetch(&S->discarded, 1, __ATOMIC_RELAXED); return; }
    uint64_t ex = __atomic_add_fetch(&S->executions, 1, __ATOMIC_RELAXED);
    __atomic_add_fetch(&S->choices, A->nchoices, __ATOMIC_RELAXED);
    __atomic_add_fetch(&S->steps, A->steps, __ATOMIC_RELAXED);
    if (A->nchoices > S->maxd) S->maxd = A->nchoices;
    bool fresh = A->has_out && insert(S->outs, SLOTS / 4, A->out, &S->nout);
    if (A->note[0] && (fresh || ex < 3) && S->nsample < NSAMPLE && (ex & (ex - 1)) == 0) { lock(); if (S->nsample < NSAMPLE) memcpy(S->sample[S->nsample++], A->note, NOTE); unlock(); }
}
void worker(const Scenario* sc)
{
    std::vector<Item> local;
    for (;;)
    {
        if (S->stop) return;
        if (local.empty())
        {
            lock();
            if (S->nitems) { local.push_back(S->items[--S->nitems]); unlock(); }
            else { S->waiting++; unlock();
                for (;;)
                {
                    struct timespec t = {0, 100000}; nanosleep(&t, 0);
                    if (S->stop) return;
                    lock();
                    if (S->nitems) { S->waiting--; local.push_back(S->items[--S->nitems]); unlock(); break; }
                    bool done = S->waiting >= S->alive;
                    unlock();
                    if (done) return;
                }
            }
        }
        Item it = local.back(); local.pop_back();
        if (now() > g_deadline) { S->deadline = 1; S->stop = 1; return; }
        if (sc->isolate) run_forked(sc, &it, g_limit, 0); else run_inline(sc, &it);
        A->execs++;
        if (A->status != 1 && A->status != 7) { report_fail(&it); return; }
        finish(it);
        uint32_t n = A->nchoices; if (n > MAXD) n = MAXD;
        for (uint32_t i = it.n; i < n; i++)
            for (int alt = A->arity[i] - 1; alt >= 1; alt--)
            {
                Item q; q.n = i + 1; memcpy(q.c, A->chosen, i * sizeof q.c[0]); q.c[i] = alt;
                local.push_back(q);
            }
        A->status = 6;
        if (S->waiting > 0 && local.size() > 1 && S->nitems < 64)
        {   // give the shallowest half away
            lock();
            size_t k = local.size() / 2; if (k > 64) k = 64;
            if (S->nitems + k <= POOL) { for (size_t i = 0; i < k; i++) S->items[S->nitems++] = local[i]; local.erase(local.begin(), local.begin() + k); }
            unlock();
        }
    }
}
void jstr(const char* s)
{
    putchar('"');
    for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') { putchar('\\'); putchar(c); } else if (c < 32 || c >= 127) printf("\\u%04x", c); else putchar(c); }
    putchar('"');
}
void* share(size_t n) { void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(97); } return p; }
} // namespace

int choose(int n)
{
    if (n <= 0 || n > 65535) { snprintf(A->msg, MSG, "bad arity %d", n); A->status = 5; _exit(9); }
    uint32_t i = A->nchoices;
    if (i >= MAXD) { if (n == 1) return 0; S->overflow = 1; return 0; }
    int c = i < g_prefix->n ? g_prefix->c[i] : 0;
    if (c >= n) { snprintf(A->msg, MSG, "divergence: decision %u has %d options, wanted %d", i, n, c); A->status = 5; _exit(9); }
    A->chosen[i] = c; A->arity[i] = n; A->nchoices = i + 1;
    return c;
}
bool thorough() { return g_thorough; }
void fail(const char* fmt, ...)
{
    va_list ap; va_start(ap, fmt); vsnprintf(A->msg, MSG, fmt, ap); va_end(ap);
    A->status = 2;
    _exit(9);
}
void state(const void* d, size_t n) { insert(S->states, SLOTS, fnv(d, n), &S->nstates); }
void outcome(const void* d, size_t n) { A->out = fnv(d, n, A->out); A->has_out = 1; }
void step() { A->steps++; }
void discard() { A->status = 7; }
void note(const char* fmt, ...)
{
    if (A->nnote + 2 >= NOTE) return;
    va_list ap; va_start(ap, fmt); int k = vsnprintf(A->note + A->nnote, NOTE - A->nnote, fmt, ap); va_end(ap);
    A->nnote += k; if (A->nnote >= NOTE) A->nnote = NOTE - 1;
}
std::string scratch() { return g_scratch; }

static bool listed(const char* only, const char* name) { size_t n = strlen(name); for (const char* p = only; ; p++) { size_t k = strcspn(p, ","); if (k == n && !strncmp(p, name, n)) return true; p += k; if (!*p) return false; } }   // "a,b,c"
int main(int argc, char** argv, const Scenario* s, size_t n)
{
    const char* only = 0; double budget = 60; int nw = 8; const char* replay = 0; bool list = false, isolate = false; const char* dir = "/tmp";
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        if (a == "--scenario") only = argv[++i];
        else if (a == "--tier") g_thorough = !strcmp(argv[++i], "thorough");
        else if (a == "--budget") budget = atof(argv[++i]);
        else if (a == "--workers") nw = atoi(argv[++i]);
        else if (a == "--replay") replay = argv[++i];
        else if (a == "--scratch") dir = argv[++i];
        else if (a == "--list") list = true;
        else if (a == "--isolate") isolate = true;
    }
    if (list) { for (size_t i = 0; i < n; i++) printf("%s %d\n", s[i].name, s[i].tier); return 0; }
    if (const char* e = getenv("MC_LIMIT")) g_limit = atoi(e);
    S = (Shared*)share(sizeof(Shared));
    std::vector<Area*> areas; for (int i = 0; i < nw; i++) areas.push_back((Area*)share(sizeof(Area)));
    Area* mainA = (Area*)share(sizeof(Area));
    std::string base = std::string(dir) + "/seq." + std::to_string(getpid());
    mkdir(base.c_str(), 0700);
    double t0 = now(); bool first = true; int rc = 0;
    if (!replay) printf("[");
    for (size_t k = 0; k < n && rc == 0; k++)
    {
        Scenario copy = s[k]; copy.isolate = copy.isolate || isolate; const Scenario* sc = &copy;
        if (only && !listed(only, sc->name)) continue;
        if (!only && (g_thorough ? sc->tier == -1 : sc->tier == 1)) continue;
        if (replay)
        {
            A = mainA; Item it; it.n = 0;
            for (const char* p = replay; *p; ) { it.c[it.n++] = atoi(p); p += strcspn(p, ","); if (*p) p++; }
            g_scratch = base + "/r"; mkdir(g_scratch.c_str(), 0700);
            run_forked(sc, &it, 120, 0);
            printf("status=%u %s\nhistory: %s\n", A->status, A->status == 1 ? "ok" : A->msg, A->note);
            rmdir_r(g_scratch); rmdir_r(base);
            return A->status == 1 ? 0 : 1;
        }
        double ts = now(); size_t remaining = 0;
        for (size_t j = k; j < n; j++) if ((!only || listed(only, s[j].name)) && (only || !(g_thorough ? s[j].tier == -1 : s[j].tier == 1))) remaining++;
        g_deadline = ts + 2 * (t0 + budget - ts) / (remaining + 1);
        if (g_deadline < ts + 3) g_deadline = ts + 3;
        memset((void*)S, 0, offsetof(Shared, items));
        S->items[0].n = 0; S->nitems = 1; S->alive = nw;
        fflush(stdout);
        std::vector<pid_t> pids;
        for (int i = 0; i < nw; i++)
        {
            areas[i]->status = 6; areas[i]->nchoices = 0;
            pid_t p = fork();
            if (p == 0)
            {
                prctl(PR_SET_PDEATHSIG, SIGKILL); A = areas[i];
                g_scratch = base + "/w" + std::to_string(i); mkdir(g_scratch.c_str(), 0700);
                if (!freopen("/dev/null", "w", stderr)) {}
                worker(sc);
                _exit(0);
            }
            pids.push_back(p);
        }
        int left = nw; std::vector<std::pair<uint64_t, double>> excused(nw); double looked = now(), last = looked;   // per worker: the execution and its time (ms) spent waiting for the machine
        while (left)
        {
            double t_now = now(), gap = t_now - last > 0.2 ? t_now - last : 0; last = t_now;    // this process didn't run either
            if (gap || t_now - looked > 0.1)
            {
                double since = gap ? gap : t_now - looked; looked = t_now;
                for (int i = 0; i < nw; i++) if (pids[i] && areas[i]->status == 0)
                {
                    uint64_t st = areas[i]->started_ms; if (excused[i].first != st) excused[i] = std::make_pair(st, 0.0);
                    if (gap || (t_now * 1000 - st > 1000 && waits_for_disk(pids[i]))) excused[i].second += since * 1000;
                }
            }
            int st; pid_t p = waitpid(-1, &st, WNOHANG);
            if (p > 0)
            {
                for (int i = 0; i < nw; i++) if (pids[i] == p)
                {
                    left--; pids[i] = 0;
                    if (!WIFEXITED(st) || WEXITSTATUS(st))
                    {   // the execution ended the worker: fail() or a crash
                        A = areas[i];
                        if (A->status == 0)
                        {
                            A->status = 2;
                            if (WIFSIGNALED(st)) snprintf(A->msg, MSG, "crash: signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
                            else snprintf(A->msg, MSG, "crash: the process ended in the middle (exit status %d)", WEXITSTATUS(st));
                        }
                        Item it; it.n = 0; report_fail(&it);
                    }
                }
                continue;
            }
            struct timespec t = {0, 2000000}; nanosleep(&t, 0);
            if (!sc->isolate)
                for (int i = 0; i < nw; i++)
                    if (pids[i] && areas[i]->status == 0 && now() * 1000 - areas[i]->started_ms > g_limit * 1000.0 + (excused[i].first == areas[i]->started_ms ? excused[i].second : 0))
                    {
                        uint64_t e = areas[i]->execs;
                        A = areas[i]; kill(pids[i], SIGKILL); (void)e;
                        snprintf(A->msg, MSG, "hang: no end within %d s", g_limit); A->status = 2;
                        Item it; it.n = 0; report_fail(&it);
                    }
        }
        int failed = S->failed; std::string extra;
        if (failed)
        {   // replay before report, alone in a fresh process
            A = mainA; g_scratch = base + "/r"; mkdir(g_scratch.c_str(), 0700);
            int same = 0; char m[MSG] = "";
            for (int r = 0; r < 2; r++) { std::string ef = base + "/stderr"; int st = run_forked(sc, &S->fail, g_limit * 3, ef.c_str()); if (st == failed) { same++; memcpy(m, A->msg, MSG); memcpy(S->fail_note, A->note, NOTE); } }
            int tried = 2; if (sc->isolate && same < 2) for (; tried < 8; tried++) { std::string ef = base + "/stderr"; int st = run_forked(sc, &S->fail, g_limit, ef.c_str()); if (st == failed) { same++; memcpy(m, A->msg, MSG); memcpy(S->fail_note, A->note, NOTE); } }   // threads run freely in it
            if (same * 2 >= tried && same >= 2) { memcpy(S->fail_msg, m, MSG); }
            else { failed = 4; size_t q = strlen(S->fail_msg); snprintf(S->fail_msg + q, MSG - q, " -- not reproduced on replay (%d of %d)", same, tried); }
        }
        if (!first) printf(","); first = false;
        bool complete = !failed && !S->deadline && !S->overflow;
        printf("{\"scenario\":"); jstr(sc->name); if (sc->isolate) printf(",\"isolated\":true");
        printf(",\"complete\":%s,\"executions\":%llu,\"discarded\":%llu,\"decisions\":%llu,\"steps\":%llu,\"max_decisions\":%llu,\"distinct_states\":%llu,\"distinct_outcomes\":%llu,\"overflow\":%d,\"wall_s\":%.2f,\"samples\":[",
               complete ? "true" : "false", (unsigned long long)S->executions, (unsigned long long)S->discarded, (unsigned long long)S->choices, (unsigned long long)S->steps, (unsigned long long)S->maxd, (unsigned long long)S->nstates, (unsigned long long)S->nout, S->overflow, now() - ts);
        for (int i = 0; i < S->nsample; i++) { if (i) printf(","); jstr(S->sample[i]); }
        printf("]");
        if (failed)
        {
            printf(",\"failure\":{\"kind\":%s,\"message\":", failed == 2 ? "\"violation\"" : failed == 4 ? "\"unreproduced\"" : "\"internal\"");
            jstr(S->fail_msg); printf(",\"history\":"); jstr(S->fail_note); printf(",\"decisions\":[");
            for (int i = 0; i < S->fail.n; i++) printf("%s%d", i ? "," : "", S->fail.c[i]);
            printf("]}");
            rc = failed == 2 ? 1 : 2;
        }
        printf("}"); fflush(stdout);
        for (int i = 0; i < nw; i++) rmdir_r(base + "/w" + std::to_string(i));
        rmdir_r(base + "/r");
    }
    if (!replay) printf("]\n");
    rmdir_r(base);
    return rc;
}
} // namespace seq
