// Exhaustive explorer for sequential behaviour: a scenario body asks for choices, and every combination of
// answers is executed exactly once (depth-first, in parallel). See DESIGN.md, "Sequential explorer".
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>

namespace seq {

struct Scenario
{
    const char* name;
    void (*body)();
    int tier;          // 0 both tiers, 1 thorough only, -1 quick only
    bool isolate;      // run every execution in a process of its own (global state, expected crashes)
};

int choose(int n);                                   // 0..n-1, every answer is explored
bool thorough();                                     // tier of this run
void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
void state(const void* data, size_t n);              // a state of system + reference model was reached and checked
inline void state(const std::string& s) { state(s.data(), s.size()); }
void outcome(const void* data, size_t n);            // what this execution observably did
inline void outcome(const std::string& s) { outcome(s.data(), s.size()); }
void step();                                         // one operation was executed on the implementation and checked
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // describes the current execution (samples, replays)
void discard();                                      // this execution's history was not meaningful (not counted)
std::string scratch();                               // a private scratch directory of this worker, removed at the end

int main(int argc, char** argv, const Scenario* s, size_t n);

#define SEQ_CHECK(cond, ...) do { if (!(cond)) seq::fail(__VA_ARGS__); } while (0)
}
