/* Scoped tracepoints as C code uses them. */
#pragma clang diagnostic ignored "-Wint-conversion"
#include <pthread.h>
#include <hawktracer/tracepoint.h>
#include <hawktracer/timeline.h>
void p13_tick(void); int p13_choose(int);
static int c_inner(HT_Timeline* t, int how)
{
    HT_TP_SCOPED_INT(t, 21);
    p13_tick();
    if (how == 0) return 1;
    { HT_TRACE(t, "c block"); p13_tick(); if (how == 1) return 2; if (how == 2) goto out; }
    p13_tick();
out:
    p13_tick();
    return 3;
}
int p13_c_paths(HT_Timeline* t)
{
    int i, n = 0, how = p13_choose(4), at = p13_choose(3);
    HT_TP_SCOPED_STRING(t, "c outer");
    for (i = 0; i < 3; i++)
    {
        HT_TP_SCOPED_INT(t, 31 + i);
        p13_tick();
        if (i == at && how == 0) break;
        if (i == at && how == 1) continue;
        n += c_inner(t, (how + i) % 4);
        if (i == at && how == 2) return n;
        p13_tick();
    }
    return n;
}
void p13_c_function(HT_Timeline* t) { HT_TRACE_FUNCTION(t); p13_tick(); }
void p13_c_mapped(HT_Timeline* t, int twice) { HT_TP_STRACEPOINT(t, "c mapped label"); p13_tick(); if (twice) p13_c_mapped(t, 0); }
void p13_c_dyn(HT_Timeline* t, const char* s) { HT_TP_DYN_STRACEPOINT(t, s); p13_tick(); }
