// C08: spin mutex, C09: spin-until
#include "mc.h"
#include <chrono>
#include <limits>
#include <stdexcept>
#include <SpinWait.hpp>
#include <mutex>
#include <thread>
#include <vector>

using namespace opencmw;

// ---- C08 ---------------------------------------------------------------------------------------
struct YieldPolicy { // a policy with the interface the mutex asks for
    void spin_once() { std::this_thread::yield(); }
    void reset() {}
};
template<typename P>
static void contend(int threads, int rounds, bool viaGuard) {
    AtomicMutex<P>           m;
    int                      shared = 0, other = 0;
    int                      inside = 0;
    std::vector<std::thread> t;
    for (int i = 0; i < threads; i++)
        t.emplace_back([&] {
            for (int k = 0; k < rounds; k++) {
                if (viaGuard) {
                    std::lock_guard g(m);
                    { mc::Untracked u; mc::check(++inside == 1, "two threads inside the spin mutex"); }
                    shared++;
                    other = shared;
                    { mc::Untracked u; --inside; }
                } else {
                    m.lock();
                    { mc::Untracked u; mc::check(++inside == 1, "two threads inside the spin mutex"); }
                    shared++;
                    other = shared;
                    { mc::Untracked u; --inside; }
                    m.unlock();
                }
            }
        });
    for (auto &x : t) x.join();
    mc::check(shared == threads * rounds && other == shared, "an update made inside the spin mutex was lost");
    m.lock(); // free again
    m.unlock();
}
template<typename P>
static void blocked() { // a waiter does not get in before the owner releases
    AtomicMutex<P>    m;
    std::atomic<bool> released{ false };
    m.lock();
    std::thread t([&] { m.lock(); mc::check(released.load(), "mutex acquired while owned by another thread"); m.unlock(); });
    mc::point();
    released = true;
    m.unlock();
    t.join();
}

template<typename P>
static void longHold(int yields) { // the owner keeps it for longer than any number of attempts a waiter may make
    AtomicMutex<P>    m;
    std::atomic<bool> released{ false };
    m.lock();
    std::thread t([&] { m.lock(); mc::check(released.load(), "mutex acquired while owned by another thread"); m.unlock(); });
    for (int i = 0; i < yields; ++i) std::this_thread::yield();
    released = true;
    m.unlock();
    t.join();
}

// ---- C09 ---------------------------------------------------------------------------------------
struct Observation {
    int  calls = 0;
    bool last  = false;
};
static constexpr int64_t MS = 1000000;
template<typename S>
static void until(int64_t timeout, int trueAtCall, int64_t trueAtMs, bool noTimeoutOverload) {
    S           s;
    Observation o;
    int64_t     t0   = mc::virtualTimeNs();
    auto        cond = [&]() noexcept -> bool {
        mc::Untracked u;
        o.calls++;
        o.last = (trueAtCall >= 0 && o.calls > trueAtCall) || (trueAtMs >= 0 && mc::virtualTimeNs() - t0 >= trueAtMs * MS);
        return o.last;
    };
    bool r  = noTimeoutOverload ? s.spinUntil(cond) : s.spinUntil(cond, timeout);
    auto dt = mc::virtualTimeNs() - t0;
    std::string ctx = " (timeout " + std::to_string(timeout) + " ms, condition true at call " + std::to_string(trueAtCall) + "/after " + std::to_string(trueAtMs) + " ms, returned " + (r ? "true" : "false") + " after " + std::to_string(o.calls) + " checks and " + std::to_string(dt) + " ns)";
    mc::check(o.calls >= 1, "the condition was never checked" + ctx);
    mc::check(r == o.last, "the result contradicts the last observation of the condition" + ctx);
    if (!r) {
        mc::check(timeout >= 0, "gave up although no timeout was given" + ctx);
        mc::check(timeout == 0 || __int128(dt) > __int128(timeout - 1) * MS, "gave up before the timeout elapsed" + ctx);
    }
    if (timeout == 0) mc::check(o.calls == 1, "zero timeout must check exactly once" + ctx);
    if (timeout > 0) mc::check(__int128(dt) <= (__int128(timeout) + 4) * MS, "did not return soon after the timeout" + ctx);
}
template<typename S>
static void untilAll() {
    static const int64_t timeouts[] = { -1, 0, 1, 2, 3, 7, 50, 2147483648LL, 4294967297LL, std::numeric_limits<int64_t>::max() };
    static const int     calls[]    = { -1, 0, 1, 2, 5, 11, 12, 30, 60, 5000 };
    static const int64_t times[]    = { -1, 0, 1, 2, 6, 40, 120, 2500 };
    auto t = timeouts[mc::choose(10)];
    int  c = calls[mc::choose(10)];
    auto m = c >= 0 ? -1 : times[mc::choose(8)];
    if ((t == -1 || t > 1000000) && c < 0 && m < 0) return; // waits (practically) for ever, by contract
    until<S>(t, c, m, t == -1 && mc::choose(2) == 1);
}
template<typename S>
static void reject() {
    S s;
    for (int64_t t : { int64_t(-2), int64_t(-100), std::numeric_limits<int64_t>::min() }) {
        bool threw = false;
        try { (void) s.spinUntil([]() noexcept { return true; }, t); } catch (const std::out_of_range &) { threw = true; }
        mc::check(threw, "timeout " + std::to_string(t) + " was not rejected");
    }
}
// concurrent: the condition is set by another thread
template<typename S>
static void untilThread(int64_t timeout) {
    std::atomic<bool> flag{ false };
    int               data = 0;
    std::thread       t([&] { data = 1; flag.store(true, std::memory_order_release); });
    S                 s;
    bool              last = false;
    int64_t           t0   = mc::virtualTimeNs();
    bool              r    = s.spinUntil([&]() noexcept { bool v = flag.load(std::memory_order_acquire); { mc::Untracked u; last = v; } return v; }, timeout);
    mc::check(r == last, "the result contradicts the last observation of the condition");
    if (r) mc::check(data == 1, "data published before the condition not visible");
    else mc::check(timeout >= 0 && (timeout == 0 || mc::virtualTimeNs() - t0 > (timeout - 1) * MS), "gave up before the timeout elapsed");
    t.join();
}
template<typename S>
static void phases(int yieldThreshold) { // spinOnce()/reset()/count()
    S   s;
    int n = 0;
    for (int i = 0; i < 3 * yieldThreshold + 40; i++) {
        mc::check(s.count() == n && s.nextSpinWillYield() == (n > yieldThreshold), "spin count/phase wrong after " + std::to_string(n) + " spins");
        s.spinOnce();
        n++;
    }
    s.reset();
    mc::check(s.count() == 0 && !s.nextSpinWillYield(), "reset does not restart the spinning");
}

static int reg = [] {
    auto q  = [](int p) { mc::Options o; o.preemptions = p; o.maxSeconds = 100; o.maxSteps = 200000; return o; };
    auto th = [](int p) { mc::Options o; o.preemptions = p; o.maxSeconds = 500; o.maxSteps = 200000; return o; };
    mc::add("C08_plain_2x2", [] { contend<NO_SPIN_WAIT>(2, 2, false); }, q(4), th(6));
    mc::add("C08_plain_3x1", [] { contend<NO_SPIN_WAIT>(3, 1, true); }, q(3), th(5));
    mc::add("C08_plain_3x2", [] { contend<NO_SPIN_WAIT>(3, 2, false); }, q(2), th(4));
    mc::add("C08_spinwait_2x2", [] { contend<SpinWait<>>(2, 2, true); }, q(4), th(6));
    mc::add("C08_spinwait_3x1", [] { contend<SpinWait<1, 2, 3>>(3, 1, false); }, q(3), th(5));
    mc::add("C08_policy_2x2", [] { contend<YieldPolicy>(2, 2, false); }, q(3), th(5));
    mc::add("C08_policy_3x1", [] { contend<YieldPolicy>(3, 1, true); }, q(2), th(3));
    mc::add("C08_blocked_plain", [] { blocked<NO_SPIN_WAIT>(); }, q(4), th(6));
    mc::add("C08_blocked_policy", [] { blocked<YieldPolicy>(); }, q(4), th(6));
    auto hold = [](int p) { mc::Options o; o.preemptions = p; o.maxSeconds = 60; o.maxSteps = 200000; o.spinLimit = 1200; return o; };
    mc::add("C08_long_hold_plain", [] { longHold<NO_SPIN_WAIT>(20); }, hold(1), hold(2));
    mc::add("C08_long_hold_policy", [] { longHold<YieldPolicy>(600); }, hold(0), hold(1));
    mc::add("C08_long_hold_spinwait", [] { longHold<SpinWait<1, 2, 3>>(600); }, hold(0), hold(1));
    mc::add("C09_cases_default", untilAll<SpinWait<>>, q(0), th(0));
    mc::add("C09_cases_short", untilAll<SpinWait<1, 2, 3>>, q(0), th(0));
    mc::add("C09_cases_sleepy", untilAll<SpinWait<0, 1, 1>>, q(0), th(0));
    mc::add("C09_cases_long", untilAll<SpinWait<12, 3, 7>>, q(0), th(0));
    mc::add("C09_reject", [] { reject<SpinWait<>>(); reject<SpinWait<0, 1, 1>>(); }, q(0), th(0));
    mc::add("C09_phases", [] { phases<SpinWait<>>(10); phases<SpinWait<1, 2, 3>>(1); phases<SpinWait<12, 3, 7>>(12); }, q(0), th(0));
    for (int64_t t : { -1, 0, 1, 5 }) {
        mc::add("C09_thread_default_" + std::to_string(t), [t] { untilThread<SpinWait<>>(t); }, q(2), th(4));
        mc::add("C09_thread_short_" + std::to_string(t), [t] { untilThread<SpinWait<1, 2, 3>>(t); }, q(3), th(5));
    }
    return 0;
}();
