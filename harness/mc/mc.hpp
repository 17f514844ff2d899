// Stateless model checker for the real multithreaded code.  See DESIGN.md.
//
// A scenario body runs on thread 0 in a freshly forked process for every
// explored schedule.  All pthread synchronisation, thread creation, atomics and
// the explicit mc::point() calls are scheduling points; the explorer enumerates
// every choice at every point (optionally bounded in preemptions).
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct Scenario {
    std::string name;               // unique, used in replay files
    std::function<void()> body;     // runs under the controlled scheduler
    int preemptions;                // bound, -1 = unbounded (all interleavings)
    int faults;                     // bound on spurious wake-ups / timeouts
    bool races;                     // report data races
    bool iterate;                   // iterate the preemption bound 0..preemptions
};

// --- to be used from scenario bodies, stubs and listeners -------------------
void point(const void *obj);            // extra scheduling point touching obj
void touch(const void *obj);            // makes the order on obj part of the state
[[noreturn]] void fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
int  self();                            // small thread number, 0 = the caller
int  live_threads();                    // started and not yet finished, besides thread 0
void outcome(uint64_t h);               // adds to the set of distinct outcomes
uint64_t hash(const void *p, size_t n, uint64_t seed = 1469598103934665603ull);
// run a piece of harness bookkeeping without race instrumentation
struct Quiet { Quiet(); ~Quiet(); };

struct LogEntry { int tid; int kind; long a; long b; };
void log(int kind, long a, long b);     // global, race-free, schedule-ordered log
const LogEntry *log_begin();
size_t log_size();
void log_clear();

// --- main ---------------------------------------------------------------
// argv: --tier T --out FILE [--replay FILE] [--budget SECONDS]
int run(int argc, char **argv, const char *property, std::vector<Scenario> scenarios);

}  // namespace mc
