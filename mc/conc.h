// Interface between concurrency harnesses and the controlled scheduler (mc/conc_rt.cpp).
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <string>
#include <vector>

struct McScenario
{
    const char* name;
    void (*body)();
    int pb_quick;       // preemption bound, quick tier
    int pb_thorough;    // preemption bound, thorough tier
    int eb_quick;       // environment-deviation bound
    int eb_thorough;
    unsigned env;       // MC_ENV_* flags: which environment deviations are offered
    int tier;           // 0: both tiers, 1: thorough only
};

enum { MC_ENV_SHORT_SEND = 1, MC_ENV_SEND_FAIL = 2, MC_ENV_SEGMENT = 4, MC_ENV_COND_ORDER = 8, MC_ENV_SPURIOUS = 16 };

int mc_conc_main(int argc, char** argv, const McScenario* scenarios, size_t count);

// --- services for harness bodies (none of these contains a scheduling point unless stated) ---
void mc_log(int kind, const void* data, size_t size);          // atomic append, records the calling thread
struct McLogEntry { int tid; int kind; uint64_t step; const unsigned char* data; size_t size; };
size_t mc_log_count();
McLogEntry mc_log_get(size_t i);
int mc_choose(int n);                                          // environment choice; non-zero answers cost a deviation
int mc_choose_free(int n);                                     // environment choice without cost
void mc_fail(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
void mc_outcome(const void* data, size_t n);                   // what this execution observably did (hashed)
void mc_point();                                               // explicit scheduling point
int mc_tid();
uint64_t mc_steps();                                           // scheduling steps so far (a logical clock)
size_t mc_heap_live();                                         // live heap blocks allocated by the program itself (leak checks)
void mc_wait_idle();                                           // scheduling point: continues only when no other thread can run
struct McQuiet { McQuiet(); ~McQuiet(); };                      // the calling thread's accesses are not checked or recorded in this scope (oracle code after the threads ended)
void mc_atomic_threads(unsigned mask);                         // threads (by id, in order of creation) that are not preempted from now on; others still are
void mc_calm(bool on);                                         // while on, the default schedule is followed without branching (setting up)
int mc_live_threads();                                         // threads not finished, including the caller

// --- simulated files (fopen for writing of a path that starts with "/mcsim/") ---
const unsigned char* mc_file_data(const char* path, size_t* size);   // what the process has handed to the kernel
bool mc_file_open(const char* path);

// --- refusals of the system: after `skip` more calls of this kind, `count` of them fail with the usual error (EAGAIN for threads, EMFILE for sockets, ...) ---
enum { MC_REFUSE_THREAD, MC_REFUSE_SOCKET, MC_REFUSE_OPTION, MC_REFUSE_BIND, MC_REFUSE_LISTEN, MC_REFUSE_ACCEPT, MC_REFUSE_KINDS };
void mc_refuse(int kind, int skip, int count);
int mc_refused(int kind);                                      // how many did

// --- simulated TCP peer (the code under test uses socket(), accept(), send(), ... as usual) ---
int sim_connect(int port);                                     // scheduling point; client handle, or -1 if nobody listens
const unsigned char* sim_received(int h, size_t* n);           // everything the peer got so far
bool sim_eof(int h);                                           // the library closed or shut down this connection
void sim_close(int h);                                         // scheduling point: peer closes
void sim_reset(int h);                                         // scheduling point: peer resets (sends fail at once)
void sim_send(int h, const void* data, size_t n);              // scheduling point: peer sends bytes to the library
int sim_listen(int port);                                      // harness acts as a server; handle of the listening socket
int sim_accept(int listener);                                  // scheduling point; blocks; returns handle
void sim_close_listener(int listener);
int sim_open_fds();                                            // sockets the code under test still holds open
