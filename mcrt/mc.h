// Harness-side API of the controlled scheduler ("mcrt"). See mcrt.cpp.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct Options {
    int      preemptions   = 2;          // preemption bound
    uint64_t maxSchedules  = UINT64_MAX; // safety stop; hitting it makes the run non-exhaustive (reported)
    double   maxSeconds    = 600;        // ditto
    uint64_t maxSteps      = 20000;      // scheduling points per schedule; exceeding it is reported as non-termination
    int      spinLimit     = 3;          // re-reads of an unchanged location after which a thread counts as spinning
    bool     races         = true;       // report C++ data races
    bool     uaf           = true;       // report use of freed heap memory
    bool     early_timeout = true;       // timed waits/sleeps may expire although others could still run (costs one preemption)
    int      eagerThreads  = 64;         // creating a thread beyond this many yields to it (bounds code that creates threads until one has started)
    bool     stepLimitIsViolation = true;
    bool     unlockPoints = false; // releasing a reader/writer lock is a scheduling point (gcc does not report stores of class values returned by calls to the race detector)
    bool     hbCache       = true;       // prune equivalent happens-before prefixes
};

struct Scenario {
    std::string           name;
    std::function<void()> body;
    Options               opt;      // quick tier
    Options               thorough; // thorough tier
};

void     add(const std::string &name, std::function<void()> body, Options quick = {}, Options thorough = {});
int      main(int argc, char **argv); // drives every registered scenario

// to be called from within a scenario body (any thread)
[[noreturn]] void fail(const std::string &message);
inline void       check(bool ok, const char *message) {
    if (!ok) fail(message);
}
inline void check(bool ok, const std::string &message) {
    if (!ok) fail(message);
}
int      choose(int n);               // exhaustively explored data choice 0..n-1
void     point();                     // explicit scheduling point
int      self();                      // logical thread id
uint64_t now();                       // logical step counter (total order of the schedule)
uint64_t waits();                     // how often the calling thread had to wait so far (blocked, spinning, sleeping, yielding)
int64_t  virtualTimeNs();             // virtual clock
void     advanceTime(int64_t ns);     // move the virtual clock
void     note(const std::string &s);  // annotate the trace of the current schedule
bool     active();
// blocks the calling thread until pred() is true; pred is re-evaluated whenever another thread has run
void     waitUntil(const std::function<bool()> &pred);
// harness bookkeeping that must not be seen by the race detector
struct Untracked {
    Untracked();
    ~Untracked();
};
} // namespace mc
