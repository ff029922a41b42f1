// P24: the Python client under every schedule of the reading thread with the program's threads and the interpreter lock (a modelled CPython).
#include "fakepy.hpp"
#include "refdec.hpp"
#include <hawktracer/client_utils/stream_factory.hpp>
#include <condition_variable>
#include <memory>
#include <thread>
PyMODINIT_FUNC PyInit_client(void);
using namespace HawkTracer::parser;
// n bare events (class 1 = HT_Event): id 1..n; the timestamp tells which start() they belong to
static Bytes trace(int n, int run) { Bytes b; for (int i = 1; i <= n; i++) b += ref_head(1, 100 * run + i, i); return b; }
static int g_n, g_run; static bool g_live;
struct MemStream : Stream
{
    Bytes d; size_t p = 0; bool started = false; MemStream() : d(trace(g_n, ++g_run)) {}
    bool start() override { started = true; p = 0; return true; } void stop() override { started = false; }
    int read_byte() override { if (!started) mc_fail("the stream is read after it was stopped"); return p < d.size() ? (unsigned char)d[p++] : -1; }
    bool read_data(char* b, size_t n) override { if (!started) mc_fail("the stream is read after it was stopped"); if (n > d.size() - p) { p = d.size(); return false; } memcpy(b, d.data() + p, n); p += n; return true; }
    bool is_continuous() override { return false; }
};
struct LiveStream : Stream      // delivers n events, then blocks until it is stopped
{
    std::mutex m; std::condition_variable cv; Bytes d; size_t p = 0; bool ended = false; LiveStream() : d(trace(g_n, ++g_run)) {}
    void stop() override { { std::lock_guard<std::mutex> l(m); ended = true; } cv.notify_all(); }
    bool have(std::unique_lock<std::mutex>& l, size_t n) { cv.wait(l, [&] { return d.size() - p >= n || ended; }); return d.size() - p >= n; }
    int read_byte() override { std::unique_lock<std::mutex> l(m); return have(l, 1) ? (unsigned char)d[p++] : -1; }
    bool read_data(char* b, size_t n) override { std::unique_lock<std::mutex> l(m); if (!have(l, n)) return false; memcpy(b, d.data() + p, n); p += n; return true; }
    bool is_continuous() override { return true; }
};
namespace HawkTracer { namespace ClientUtils { std::unique_ptr<Stream> make_stream_from_string(const std::string& s) { if (s == "none") return nullptr; return std::unique_ptr<Stream>(g_live ? (Stream*)new LiveStream : (Stream*)new MemStream); } } }
enum { POLLED = 1, CALLED = 2, STOP = 3, RESTARTED = 4 };
static void event(int kind, PyObject* name, PyObject* data)
{
    if (*fpy::obj(name, fpy::STR, "class name")->s != "HT_Event") mc_fail("wrong class name"); uint64_t id = fpy::dict_int(data, "id");
    uint64_t ts = fpy::dict_int(data, "timestamp"); if (ts % 100 != id || fpy::dict_int(data, "klass_id") != 1) mc_fail("wrong values in event %llu", (unsigned long long)id); mc_log(kind, &ts, sizeof ts);
}
// events of the last run handed over so far; checks the order of all of them
static size_t count(int kind, const char* when, bool ordered = true)
{
    size_t n = 0, run = 1, started = 1; bool stopped = false;
    for (size_t i = 0; i < mc_log_count(); i++)
    {
        auto e = mc_log_get(i); if (e.kind == RESTARTED) { started++; if (run < started) { run = started; n = 0; } } if (e.kind == STOP) stopped = true;
        if (e.kind != POLLED && e.kind != CALLED) continue; if (e.kind != kind) mc_fail("%s: the event came the other way", when); if (stopped && kind == CALLED) mc_fail("%s: a callback ran after stop() returned", when);
        uint64_t ts; memcpy(&ts, e.data, sizeof ts); size_t r = ts / 100; if (r < started) mc_fail("%s: an event of the stream that start() replaced", when); if (r < run) mc_fail("%s: an event of an earlier stream after one of a later", when);
        if (r > run) { run = r; n = 0; } ++n; if (ordered && ts % 100 != n) mc_fail("%s: event %llu was handed over as number %zu", when, (unsigned long long)(ts % 100), n);
    }
    return n;
}
static void must(int kind, size_t n, const char* when) { size_t d = count(kind, when); if (d != n) mc_fail("%s: %zu of %zu events were handed over", when, d, n); }
static void drop(PyObject* r, const char* what) { if (!r) mc_fail("%s raised an exception", what); Py_DECREF(r); }
struct Client
{
    PyObject* o; int runs = 0; Client() { o = fpy::create(); }
    void start(PyObject* cb) { PyObject* s = fpy::text("x", 1); std::vector<PyObject*> a{s}; if (cb) a.push_back(cb); drop(fpy::method(o, "start", a), "start()"); if (runs++) mc_log(RESTARTED, "", 0); Py_DECREF(s); }
    void stop() { drop(fpy::method(o, "stop", {}), "stop()"); mc_log(STOP, "", 0); }
    void wait() { drop(fpy::method(o, "wait_for_eos", {}), "wait_for_eos()"); }
    bool eos() { PyObject* r = fpy::method(o, "eos", {}); if (r != Py_True && r != Py_False) mc_fail("eos() returned no boolean"); return r == Py_True; }
    bool poll() { PyObject* r = fpy::method(o, "poll_event", {}); if (!r) mc_fail("poll_event() raised an exception"); if (r == Py_None) return false; auto t = fpy::obj(r, fpy::TUPLE, "result of poll_event()"); if (t->seq->size() != 2) mc_fail("poll_event() returned %zu values", t->seq->size()); event(POLLED, (*t->seq)[0], (*t->seq)[1]); Py_DECREF(r); return true; }
    void drop_it() { fpy::bytecode(); Py_DECREF(o); o = nullptr; fpy::bytecode(); }
};
enum { PLAIN, RAISES, POLLS, EOS };
static PyObject* g_self = nullptr;
static PyObject* callback(int how = PLAIN)
{
    return fpy::callable([how](const std::vector<PyObject*>& a) -> PyObject* {
        if (a.size() != 2) mc_fail("the callback got %zu arguments", a.size()); event(CALLED, a[0], a[1]); fpy::bytecode();
        if (how == RAISES) { fpy::set_exc(PyExc_RuntimeError); return nullptr; }
        if (how == POLLS) { PyObject* r = fpy::method(g_self, "poll_event", {}); if (r != Py_None) mc_fail("poll_event() returned an event though there is a callback"); }
        if (how == EOS) { PyObject* r = fpy::method(g_self, "eos", {}); if (r != Py_False && r != Py_True) mc_fail("eos() returned no boolean"); }
        return fpy::integer(false, 1000);      // an object nobody else refers to
    });
}
static PyObject* g_module = nullptr;
// one program: runs with the interpreter lock held, everything it made must be gone afterwards
template<class F> static void program(int n, bool live, F f)
{
    g_n = n; g_run = 0; g_live = live; fpy::lock(); if (!g_module) g_module = PyInit_client(); if (!g_module || !fpy::client_type) mc_fail("the module cannot be imported");
    size_t heap = mc_heap_live(); int objects = fpy::live; f();
    if (mc_live_threads() != 1) mc_fail("a thread is left"); if (fpy::live != objects) mc_fail("%d objects are left", fpy::live - objects); if (mc_heap_live() != heap) mc_fail("memory leaked"); fpy::unlock();
}
static void cb_gone(PyObject* cb) { if (Py_REFCNT(cb) != 1) mc_fail("%d references to the callback are left", (int)Py_REFCNT(cb) - 1); Py_DECREF(cb); }
static void polled(int n, int polls) { program(n, false, [&] { Client c; c.start(nullptr); for (int i = 0; i < polls; i++) { bool end = c.eos(), got = c.poll(); if (end && !got && count(POLLED, "polling") < (size_t)n) mc_fail("the end was reported, but poll_event() had nothing"); } c.wait(); if (!c.eos()) mc_fail("not at the end after waiting"); while (c.poll()) {} must(POLLED, n, "polling"); c.drop_it(); size_t k = n; mc_outcome(&k, sizeof k); }); }
static void s_poll() { polled(2, 2); }
static void s_poll_more() { polled(3, 3); }
static void s_poll_drop() { program(2, false, [&] { Client c; c.start(nullptr); c.poll(); c.drop_it(); size_t k = count(POLLED, "polling"); mc_outcome(&k, sizeof k); }); }
static void s_poll_stop() { program(2, false, [&] { Client c; c.start(nullptr); c.poll(); c.stop(); size_t k = 0; while (c.poll()) k++; if (!c.eos()) mc_fail("not at the end after stop"); if (c.poll()) mc_fail("an event after the last one"); k = count(POLLED, "polling"); mc_outcome(&k, sizeof k); c.drop_it(); }); }
static void s_poll_restart() { program(1, false, [&] { Client c; c.start(nullptr); c.poll(); c.start(nullptr); c.wait(); while (c.poll()) {} must(POLLED, 1, "after starting again"); c.drop_it(); mc_outcome("", 0); }); }
static void called(int n, bool live, int how, int end)      // end: 0 wait, stop, drop; 1 stop at any time; 2 drop at any time; 3 start again at any time; 4 wait and drop
{
    program(n, live, [&] {
        Client c; g_self = c.o; PyObject* cb = callback(how); c.start(cb);
        if (end == 0 || end == 4) { c.wait(); if (!c.eos()) mc_fail("not at the end after waiting"); must(CALLED, n, "after waiting"); }
        if (end == 0 || end == 1) { c.stop(); if (!c.eos()) mc_fail("not at the end after stop"); fpy::bytecode(); }
        if (end == 3) { c.start(cb); if (!live) { c.wait(); } else c.stop(); }
        c.drop_it(); g_self = nullptr; size_t k = count(CALLED, "in the end"); if (k > (size_t)n) mc_fail("too many events"); if (end == 3 && !live && k != (size_t)n) mc_fail("after starting again: %zu of %d events", k, n); mc_outcome(&k, sizeof k); cb_gone(cb);
    });
}
static void s_cb_wait() { called(2, false, PLAIN, 0); }
static void s_cb_drop_after() { called(2, false, PLAIN, 4); }
static void s_cb_stop() { called(2, false, PLAIN, 1); }
static void s_cb_drop() { called(2, false, PLAIN, 2); }
static void s_cb_restart() { called(1, false, PLAIN, 3); }
static void s_cb_live_stop() { called(1, true, PLAIN, 1); }
static void s_cb_live_drop() { called(1, true, PLAIN, 2); }
static void s_cb_live_restart() { called(1, true, PLAIN, 3); }
static void s_cb_raises() { called(2, false, RAISES, 0); }
static void s_cb_polls() { called(1, false, POLLS, 0); }
static void s_cb_eos() { called(2, false, EOS, 1); }
static void s_two_threads() // one thread of the program waits while another asks
{
    program(1, false, [&] {
        Client c; PyObject* cb = callback(); c.start(cb); std::vector<std::thread> th; fpy::unlock(); th.emplace_back([&] { fpy::lock(); c.wait(); must(CALLED, 1, "after waiting in a second thread"); fpy::unlock(); });
        fpy::lock(); c.eos(); if (c.poll()) mc_fail("poll_event() returned an event though there is a callback"); fpy::unlock(); th[0].join(); fpy::lock(); c.stop(); c.drop_it(); cb_gone(cb); mc_outcome("", 0); std::vector<std::thread>().swap(th);
    });
}
static void s_two_pollers()
{
    program(2, false, [&] {
        Client c; c.start(nullptr); std::vector<std::thread> th; fpy::unlock(); th.emplace_back([&] { fpy::lock(); c.poll(); fpy::unlock(); });
        fpy::lock(); c.wait(); c.poll(); fpy::unlock(); th[0].join(); fpy::lock(); while (c.poll()) {} if (count(POLLED, "two polling threads", false) != 2) mc_fail("two polling threads got %zu of 2 events", count(POLLED, "", false)); uint64_t seen = 0; for (size_t i = 0; i < mc_log_count(); i++) { uint64_t ts; memcpy(&ts, mc_log_get(i).data, sizeof ts); seen |= 1u << ts % 100; } if (seen != 6) mc_fail("an event was handed over twice"); c.drop_it(); mc_outcome("", 0); std::vector<std::thread>().swap(th);
    });
}
static void s_waiter_stopped()   // a thread waits for the end of a stream that never ends; another one stops the client
{
    program(1, true, [&] {
        Client c; PyObject* cb = callback(); c.start(cb); std::vector<std::thread> th; fpy::unlock(); th.emplace_back([&] { fpy::lock(); c.wait(); if (!c.eos()) mc_fail("not at the end after waiting"); fpy::unlock(); });
        fpy::lock(); c.stop(); fpy::unlock(); th[0].join(); fpy::lock(); c.drop_it(); size_t k = count(CALLED, "in the end"); mc_outcome(&k, sizeof k); cb_gone(cb); std::vector<std::thread>().swap(th);
    });
}
// calls from inside the callback, at its first or second event, while the program waits, stops, drops the client or starts it again
enum { C_STOP, C_RESTART, C_DROP, C_WAIT };
static Client* g_client; static int g_acted, g_stopped_at;
static void reentrant(int action, int at, int end, bool live)
{
    program(2, live, [&] {
        Client c; g_client = &c; g_acted = 0; g_stopped_at = 0; bool deferred = false; PyObject* cb = fpy::callable([&](const std::vector<PyObject*>& a) -> PyObject* {
            event(CALLED, a[0], a[1]); uint64_t id = fpy::dict_int(a[1], "id"); fpy::bytecode(); if (g_stopped_at) mc_fail("a callback was called after stop() returned in it");
            if ((int)id == at && g_client->o && !g_acted++)
            {
                PyObject* s = fpy::text("x", 1); PyObject* r = nullptr; PyObject* o = g_client->o; Py_INCREF(o);
                if (action == C_STOP) { r = fpy::method(o, "stop", {}); if (!r) mc_fail("stop() raised an exception in a callback"); g_stopped_at = id; }
                if (action == C_RESTART) { r = fpy::method(o, "start", {s}); }
                if (action == C_WAIT) { r = fpy::method(o, "wait_for_eos", {}); }
                if (action == C_DROP) { g_client->o = nullptr; Py_DECREF(o); }
                if (r) Py_DECREF(r); else PyErr_Clear(); Py_DECREF(s); fpy::bytecode(); Py_DECREF(o);
            }
            Py_INCREF(Py_None); return Py_None;
        });
        c.start(cb);
        if (end == 1 && c.o) { PyObject* o = c.o; Py_INCREF(o); PyObject* r = fpy::method(o, "wait_for_eos", {}); if (r) Py_DECREF(r); else mc_fail("wait_for_eos() raised an exception"); fpy::bytecode(); Py_DECREF(o); }
        if (end == 2 && c.o) { PyObject* o = c.o; Py_INCREF(o); PyObject* r = fpy::method(o, "stop", {}); if (r) Py_DECREF(r); else mc_fail("stop() raised an exception"); fpy::bytecode(); Py_DECREF(o); }
        fpy::bytecode(); if (c.o) { PyObject* o = c.o; c.o = nullptr; Py_DECREF(o); }
        fpy::unlock(); mc_wait_idle(); fpy::lock(); fpy::finish(); uint64_t k[2] = {mc_log_count(), (uint64_t)g_acted}; mc_outcome(k, sizeof k); cb_gone(cb);
    });
}
static void s_cb_stops() { reentrant(C_STOP, 1, 1, false); }
static void s_cb_stops_live() { reentrant(C_STOP, 1, 1, true); }
static void s_cb_stops_stopped() { reentrant(C_STOP, 1, 2, true); }
static void s_cb_stops_dropped() { reentrant(C_STOP, 2, 0, false); }
static void s_cb_restarts() { reentrant(C_RESTART, 1, 1, false); }
static void s_cb_restarts_stopped() { reentrant(C_RESTART, 1, 2, false); }
static void s_cb_restarts_dropped() { reentrant(C_RESTART, 2, 0, false); }
static void s_cb_drops() { reentrant(C_DROP, 1, 0, false); }
static void s_cb_drops_waiting() { reentrant(C_DROP, 1, 1, false); }
static void s_cb_drops_stopped() { reentrant(C_DROP, 1, 2, true); }
static void s_cb_waits() { reentrant(C_WAIT, 1, 2, false); }
// two threads of the program use one client
static void pair(bool live, bool cb, std::function<void(Client&, PyObject*)> one, std::function<void(Client&, PyObject*)> two)
{
    program(1, live, [&] {
        Client c; PyObject* f = cb ? fpy::callable([](const std::vector<PyObject*>&) -> PyObject* { fpy::bytecode(); Py_INCREF(Py_None); return Py_None; }) : nullptr; c.start(f); std::vector<std::thread> th; fpy::unlock(); th.emplace_back([&] { fpy::lock(); one(c, f); fpy::unlock(); });
        fpy::lock(); two(c, f); fpy::unlock(); th[0].join(); fpy::lock(); c.drop_it(); fpy::finish(); if (f) cb_gone(f); mc_outcome("", 0); std::vector<std::thread>().swap(th);
    });
}
static void t_stop(Client& c, PyObject*) { drop(fpy::method(c.o, "stop", {}), "stop()"); } static void t_wait(Client& c, PyObject*) { drop(fpy::method(c.o, "wait_for_eos", {}), "wait_for_eos()"); }
static void t_start(Client& c, PyObject* f) { PyObject* s = fpy::text("x", 1); std::vector<PyObject*> a{s}; if (f) a.push_back(f); drop(fpy::method(c.o, "start", a), "start()"); Py_DECREF(s); }
static void t_poll(Client& c, PyObject*) { for (int i = 0; i < 2; i++) { PyObject* r = fpy::method(c.o, "poll_event", {}); if (r) Py_DECREF(r); else PyErr_Clear(); } }
static void s_stop_stop() { pair(true, true, t_stop, t_stop); }
static void s_wait_start() { pair(false, true, t_wait, t_start); }
static void s_wait_start_polled() { pair(false, false, t_wait, t_start); }
static void s_start_start() { pair(false, true, t_start, t_start); }
static void s_start_stop() { pair(true, true, t_start, t_stop); }
static void s_poll_start() { pair(false, false, t_poll, t_start); }
static const McScenario sc[] = {
    {"poll", s_poll, 2, 4, 0, 0, 0, 0}, {"poll_more", s_poll_more, 2, 3, 0, 0, 0, 1}, {"poll_drop", s_poll_drop, 3, 99, 0, 0, 0, 0}, {"poll_stop", s_poll_stop, 3, 5, 0, 0, 0, 0}, {"poll_restart", s_poll_restart, 2, 4, 0, 0, 0, 0},
    {"cb_wait", s_cb_wait, 3, 4, 0, 0, 0, 0}, {"cb_drop_after", s_cb_drop_after, 3, 4, 0, 0, 0, 0}, {"cb_stop", s_cb_stop, 3, 5, 0, 0, 0, 0}, {"cb_drop", s_cb_drop, 3, 6, 0, 0, 0, 0}, {"cb_restart", s_cb_restart, 2, 4, 0, 0, 0, 0}, {"cb_live_stop", s_cb_live_stop, 3, 4, 0, 0, 0, 0}, {"cb_live_drop", s_cb_live_drop, 3, 5, 0, 0, 0, 0}, {"cb_live_restart", s_cb_live_restart, 2, 3, 0, 0, 0, 0},
    {"cb_raises", s_cb_raises, 3, 4, 0, 0, 0, 0}, {"cb_polls", s_cb_polls, 3, 4, 0, 0, 0, 0}, {"cb_eos", s_cb_eos, 3, 4, 0, 0, 0, 0}, {"two_threads", s_two_threads, 2, 3, 0, 0, 0, 0}, {"two_pollers", s_two_pollers, 1, 3, 0, 0, 0, 0}, {"waiter_stopped", s_waiter_stopped, 2, 3, 0, 0, 0, 0},
    {"cb_stops", s_cb_stops, 2, 4, 0, 0, 0, 0},
    {"cb_stops_live", s_cb_stops_live, 2, 4, 0, 0, 0, 0},
    {"cb_stops_stopped", s_cb_stops_stopped, 2, 4, 0, 0, 0, 0},
    {"cb_stops_dropped", s_cb_stops_dropped, 2, 4, 0, 0, 0, 0},
    {"cb_restarts", s_cb_restarts, 2, 3, 0, 0, 0, 0},
    {"cb_restarts_stopped", s_cb_restarts_stopped, 2, 3, 0, 0, 0, 0},
    {"cb_restarts_dropped", s_cb_restarts_dropped, 2, 3, 0, 0, 0, 0},
    {"cb_drops", s_cb_drops, 2, 4, 0, 0, 0, 0},
    {"cb_drops_waiting", s_cb_drops_waiting, 2, 4, 0, 0, 0, 0},
    {"cb_drops_stopped", s_cb_drops_stopped, 2, 4, 0, 0, 0, 0},
    {"cb_waits", s_cb_waits, 2, 4, 0, 0, 0, 0},
    {"stop_stop", s_stop_stop, 1, 3, 0, 0, 0, 0},
    {"wait_start", s_wait_start, 1, 3, 0, 0, 0, 0},
    {"wait_start_polled", s_wait_start_polled, 1, 3, 0, 0, 0, 0},
    {"start_start", s_start_start, 1, 2, 0, 0, 0, 0},
    {"start_stop", s_start_stop, 1, 3, 0, 0, 0, 0},
    {"poll_start", s_poll_start, 1, 3, 0, 0, 0, 0},
};
int main(int argc, char** argv) { return mc_conc_main(argc, argv, sc, sizeof sc / sizeof *sc); }
