// Replaces the process clock while an execution runs, so that time is an input chosen by the explorer.
#pragma once
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <stdint.h>
static bool fake_on; static uint64_t fake_ns; static void (*fake_hook)();
extern "C" int clock_gettime(clockid_t id, struct timespec* t) noexcept
{
    if (!fake_on) return syscall(SYS_clock_gettime, id, t);
    if (fake_hook) fake_hook();
    t->tv_sec = fake_ns / 1000000000; t->tv_nsec = fake_ns % 1000000000; return 0;
}
struct FakeClock { FakeClock(uint64_t t) { fake_ns = t; fake_on = true; } ~FakeClock() { fake_on = false; fake_hook = nullptr; } };
