// Controlled runtime: the program's threads (pthreads, std::thread, OpenMP teams) run as fibers of
// one OS thread under a scheduler that the explorer drives; memory accesses reported by the
// compiler's thread instrumentation are checked for happens-before races.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mcrt {

struct Options {
    int preempt = 2;          // preemption bound; -1 = unbounded
    bool sleep = false;       // sleep-set reduction (use with preempt = -1)
    bool delays = false;      // the bound counts every deviation from the default order, not only preemptions
    int spurious = 0;         // spurious wake-ups allowed per execution
    uint64_t maxExec = ~0ull; // safety cap
    double maxSeconds = 1e9;
    int maxSteps = 200000;    // scheduling points per execution before it counts as a livelock
};

struct Result {
    uint64_t execs = 0, points = 0, decisions = 0, redundant = 0, maxDepth = 0;
    bool complete = true;
    std::string key, text;    // first violation
    std::string schedule;     // decisions of the violating execution
};

// Number of processors the program sees.
extern unsigned ncpu;
// Largest OpenMP team started since the last reset, and all team sizes in order.
#define MCRT_PLAIN __attribute__((no_sanitize("thread"), noinline))
struct Sizes {   // kept by the runtime, not part of the program: accesses to it are not watched
    int v[4096], n = 0;
    MCRT_PLAIN void push_back(int x) { if (n < 4096) v[n++] = x; }
    MCRT_PLAIN void clear() { n = 0; }
    MCRT_PLAIN bool empty() const { return !n; }
    MCRT_PLAIN int back() const { return v[n - 1]; }
    MCRT_PLAIN size_t size() const { return n; }
    const int *begin() const { return v; }
    const int *end() const { return v + n; }
};
extern Sizes teamSizes;

// Explores all schedules of body within the options. before/after run outside exploration
// (default schedule) around every execution.
Result explore(const Options &o, const std::function<void()> &body, const std::function<void(const std::string &)> &onStart = nullptr);
// Runs body once under the default (non-preemptive) schedule; dir -1 prefers the youngest thread.
Result once(const std::function<void()> &body, int dir = 1);

// For bodies: reports a violation of the property and ends the exploration.
void fail(const std::string &key, const std::string &text);
// Number of threads created in this execution that have not finished.
int liveThreads();
int createdThreads();
int self();
// marks threads that exist now as permanent (they outlive executions)
void makePermanent();
// explicit scheduling point / shared access for harness code
void point(const void *obj);
extern bool raceCheck;
}
