// P27: allocation hooks around the real allocator (this program is linked with the library's malloc, calloc, realloc and free).
#include "seq.hpp"
#define HT_PLATFORM_FEATURE_ALLOC_HOOKS_ENABLED 1
#include <hawktracer/alloc_hooks.h>
#include <errno.h>
#include <malloc.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
// the compiler may not assume anything about these
static void* (*volatile f_malloc)(size_t) = malloc; static void* (*volatile f_calloc)(size_t, size_t) = calloc; static void* (*volatile f_realloc)(void*, size_t) = realloc; static void (*volatile f_free)(void*) = free;
struct Call { int hook; void* ret; void* ptr; size_t a, b; void* ud; };
static Call g_calls[64]; static int g_n = 0; static bool g_alloc_inside = false; static bool g_busy = false; static bool g_nested = false;
static void rec(int hook, void* ret, void* ptr, size_t a, size_t b, void* ud)
{
    if (g_busy) { g_nested = true; return; }
    g_busy = true; if (g_n < 64) g_calls[g_n] = {hook, ret, ptr, a, b, ud}; g_n++;
    if (g_alloc_inside)
    {
        void* p = ht_alloc_hooks_malloc_skip_hook(100); memset(p, 1, 100); void* q = ht_alloc_hooks_calloc_skip_hook(10, 10); p = ht_alloc_hooks_realloc_skip_hook(p, 1000); memset(p, 2, 1000); for (int i = 0; i < 100; i++) if (((char*)q)[i]) abort();
        ht_alloc_hooks_free_skip_hook(p); ht_alloc_hooks_free_skip_hook(q);
    }
    g_busy = false;
}
enum { PRE_M, POST_M, PRE_C, POST_C, PRE_R, POST_R, PRE_F, POST_F };
template<int H> static void m(void* ret, size_t s, void* ud) { rec(H, ret, nullptr, s, 0, ud); }
template<int H> static void c(void* ret, size_t n, size_t s, void* ud) { rec(H, ret, nullptr, n, s, ud); }
template<int H> static void r(void* ret, void* p, size_t s, void* ud) { rec(H, ret, p, s, 0, ud); }
template<int H> static void f(void* p, void* ud) { rec(H, nullptr, p, 0, 0, ud); }
static unsigned g_mask = 0; static void* g_ud = nullptr;
static void set(unsigned mask, void* ud) { ht_alloc_hooks_register_hooks(mask & 1 ? m<0> : nullptr, mask & 2 ? m<1> : nullptr, mask & 4 ? c<2> : nullptr, mask & 8 ? c<3> : nullptr, mask & 16 ? r<4> : nullptr, mask & 32 ? r<5> : nullptr, mask & 64 ? f<6> : nullptr, mask & 128 ? f<7> : nullptr, ud); }
static void off() { set(0, nullptr); }
template<class F> static void op(const char* what, F go, int pre, void* ptr, size_t a, size_t b, bool skip)
{
    g_n = 0; g_nested = false; set(g_mask, g_ud); void* ret = go(); off();
    SEQ_CHECK(!g_nested, "%s: a hook was called inside a hook that allocates without hooks", what); int want = 0;
    for (int h = pre; h < pre + 2; h++)
    {
        if (skip || !(g_mask >> h & 1)) continue;
        SEQ_CHECK(want < g_n, "%s: the %s hook was not called", what, h & 1 ? "post" : "pre"); Call& k = g_calls[want++];
        SEQ_CHECK(k.hook == h, "%s: hook %d was called instead of %d", what, k.hook, h); SEQ_CHECK(k.ud == g_ud, "%s: wrong user data", what);
        SEQ_CHECK(k.ptr == ptr && k.a == a && k.b == b, "%s: hook %d got wrong arguments (%p %zu %zu, not %p %zu %zu)", what, h, k.ptr, k.a, k.b, ptr, a, b);
        SEQ_CHECK(k.ret == ((h & 1) ? ret : nullptr), "%s: hook %d got the result %p, the caller %p", what, h, k.ret, ret);
    }
    SEQ_CHECK(g_n == want, "%s: %d hooks were called, expected %d", what, g_n, want); seq::step();
}
static const size_t SZ[] = {24, 0, 1, 100000, (size_t)PTRDIFF_MAX + 1, SIZE_MAX};
struct Slot { unsigned char* p = nullptr; size_t n = 0; unsigned char fill = 0; };
static void check(Slot& s) { for (size_t i = 0; i < s.n; i += s.n > 100 ? 97 : 1) SEQ_CHECK(s.p[i] == s.fill, "the contents of a block changed at %zu of %zu", i, s.n); if (s.n) SEQ_CHECK(s.p[s.n - 1] == s.fill, "the end of a block changed"); }
static void fill(Slot& s, unsigned char v) { s.fill = v; if (s.n) memset(s.p, v, s.n); }
static void run(int nops, int nsizes)
{
    static Slot slot[2]; slot[0] = slot[1] = Slot(); static unsigned char value; value = 1;
    for (int i = 0; i < nops; i++)
    {
        int what = seq::choose(5); if (what == 0) break;
        bool skip = seq::choose(2); Slot& s = slot[what == 1 || what == 2 ? i & 1 : seq::choose(2)]; int z = what == 4 ? 0 : seq::choose(nsizes); size_t n = SZ[z];
        if ((what == 1 || what == 2) && s.p) { free(s.p); s = Slot(); }
        unsigned char* old = s.p;
        if (what == 1)
        {
            unsigned char* p = nullptr; seq::note("malloc(%zu)%s ", n, skip ? "-skip" : ""); op("malloc", [&] { return p = (unsigned char*)(skip ? ht_alloc_hooks_malloc_skip_hook(n) : f_malloc(n)); }, PRE_M, nullptr, n, 0, skip);
            SEQ_CHECK((p != nullptr) == (z < 4), "malloc(%zu) returned %p", n, p); if (p) { SEQ_CHECK((uintptr_t)p % 16 == 0 && malloc_usable_size(p) >= n, "malloc returned a bad block"); s.p = p; s.n = n; fill(s, value++); }
        }
        else if (what == 2)
        {
            static const size_t NUM[] = {1, 0, 3, SIZE_MAX / 2, SIZE_MAX / 2 + 1, SIZE_MAX / 24 + 2, SIZE_MAX}; size_t num = NUM[seq::choose(7)]; unsigned char* p = nullptr; seq::note("calloc(%zu, %zu)%s ", num, n, skip ? "-skip" : "");
            op("calloc", [&] { return p = (unsigned char*)(skip ? ht_alloc_hooks_calloc_skip_hook(num, n) : f_calloc(num, n)); }, PRE_C, nullptr, num, n, skip);
            size_t total; bool big = __builtin_mul_overflow(num, n, &total) || total > PTRDIFF_MAX; if (big || total < 1ull << 40) SEQ_CHECK((p != nullptr) == !big, "calloc(%zu, %zu) returned %p", num, n, p);
            if (p) { s.p = p; s.n = total; s.fill = 0; check(s); fill(s, value++); }
        }
        else if (what == 3)
        {
            unsigned char* p = nullptr; seq::note("realloc(%s, %zu)%s ", old ? "block" : "NULL", n, skip ? "-skip" : ""); size_t keep = s.n < n ? s.n : n; bool freed = old && n == 0;
            op("realloc", [&] { return p = (unsigned char*)(skip ? ht_alloc_hooks_realloc_skip_hook(old, n) : f_realloc(old, n)); }, PRE_R, old, n, 0, skip);
            if (freed) { SEQ_CHECK(!p, "realloc(block, 0) returned a block"); s = Slot(); }
            else if (z >= 4) { SEQ_CHECK(!p, "realloc to %zu succeeded", n); check(s); }
            else { SEQ_CHECK(p, "realloc to %zu failed", n); s.p = p; s.n = keep; check(s); s.n = n; fill(s, value++); }
        }
        else
        {
            seq::note("free(%s)%s ", old ? "block" : "NULL", skip ? "-skip" : ""); op("free", [&] { skip ? ht_alloc_hooks_free_skip_hook(old) : f_free(old); return (void*)nullptr; }, PRE_F, old, 0, 0, skip); s = Slot();
        }
        check(slot[0]); check(slot[1]);
    }
    for (auto& s : slot) { free(s.p); s = Slot(); }
}
static void s_subsets()    // every subset of the hooks x every operation
{
    g_mask = seq::choose(256); g_ud = seq::choose(2) ? &g_mask : nullptr; g_alloc_inside = seq::choose(2); seq::note("hooks %#x: ", g_mask); run(1, 6);
}
static void s_histories()  // every history of operations, with all hooks or none
{
    g_mask = seq::choose(2) ? 255 : 0; g_ud = &g_n; g_alloc_inside = seq::choose(2); run(seq::thorough() ? 4 : 3, seq::thorough() ? 4 : 3);
}
static void s_replaced()   // hooks registered again replace the former ones, all of them and their user data
{
    static int a, b; unsigned first = seq::choose(256), second = 1u << seq::choose(8); g_mask = first; set(first, &a); off(); g_mask = second; g_ud = &b; g_alloc_inside = false; run(1, 1);
}
int main(int argc, char** argv)
{
    static const seq::Scenario s[] = {{"subsets", s_subsets, 0, false}, {"histories", s_histories, 0, false}, {"replaced", s_replaced, 0, false}};
    return seq::main(argc, argv, s, sizeof s / sizeof s[0]);
}
