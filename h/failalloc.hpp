// Allocator as documented in hawktracer/alloc.h, which checks its use and fails the requests it is told to fail.
#pragma once
#include <hawktracer/alloc.h>
#include <stdlib.h>
#include <string.h>
#include <map>
struct FailAlloc
{
    std::map<void*, size_t> live; long count = 0, fail_at = -1; bool persistent = false, armed = false, fired = false; const char* error = nullptr;
    void arm(long at, bool p) { count = 0; fail_at = at; persistent = p; armed = true; fired = false; }
    void disarm() { armed = false; }
    bool refuse() { if (!armed) return false; bool r = count == fail_at || (persistent && count > fail_at); count++; if (r) fired = true; return r; }
    static void* fn(void* p, size_t n, void* ud)
    {
        FailAlloc* a = (FailAlloc*)ud;
        if (p && !a->live.count(p)) { a->error = n ? "a block was resized that does not exist (any more)" : "a block was released that does not exist (any more)"; return nullptr; }
        if (n == 0) { if (p) { memset(p, 0xdd, a->live[p]); a->live.erase(p); free(p); } return nullptr; }
        if (a->refuse()) return nullptr;
        void* q = malloc(n); memset(q, 0xcc, n);
        if (p) { size_t o = a->live[p]; memcpy(q, p, o < n ? o : n); memset(p, 0xdd, o); a->live.erase(p); free(p); }
        a->live[q] = n; return q;
    }
};
