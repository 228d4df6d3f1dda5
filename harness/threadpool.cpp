// C22: thread pool
#define OPENCMW_VERIFICATION_THREADPOOL_N_SPIN 1
#include "mc.h"
#include <cassert>
#include <ThreadPool.hpp>
#include <atomic>
#include <thread>
using namespace opencmw;
using namespace std::chrono_literals;
namespace {
// several threads hand over tasks; each runs exactly once, results are published to whoever waits for the future
template<TaskType T>
void exactlyOnce(uint32_t mn, uint32_t mx, int callers, int perCaller) {
    int  count[8] = {};
    bool fut[8]   = {};
    int64_t start;
    {
        BasicThreadPool<T> pool("p", mn, mx);
        std::vector<std::thread> th;
        start = mc::virtualTimeNs();
        auto caller = [&](int c) {
            for (int k = 0; k < perCaller; ++k) {
                const int id    = c * perCaller + k;
                int       local = 0;
                auto      f     = pool.execute([&count, &local, id] { count[id]++; local = id + 1; return id * 7; });
                mc::check(f.get() == id * 7, "future delivers a wrong value");
                fut[id] = true;
                mc::check(local == id + 1, "effects of a task are not visible to the thread that got its result"); // race detector
            }
        };
        for (int c = 1; c < callers; ++c) th.emplace_back(caller, c);
        caller(0);
        for (auto &t : th) t.join();
        mc::check(mc::virtualTimeNs() - start < 1'000'000'000, "an accepted task was not started although threads of the pool are idle (until a time-out expired)");
        mc::check(pool.numTasksQueued() == 0, "tasks counted as queued although all are done");
        mc::check(pool.numThreads() >= mn || mc::virtualTimeNs() > 0 || !pool.isInitialised(), "fewer threads than the minimum");
        start = mc::virtualTimeNs();
    }
    mc::check(mc::virtualTimeNs() - start < 1'000'000'000, "destroying an idle pool waits for a time-out");
    for (int i = 0; i < callers * perCaller; ++i) mc::check(count[i] == 1, "task " + std::to_string(i) + " ran " + std::to_string(count[i]) + " times");
}
template<TaskType T>
void voidTasks(uint32_t mn, uint32_t mx, int n) {
    std::atomic<int> done{ 0 };
    int              count[4] = {};
    BasicThreadPool<T> pool("p", mn, mx);
    const int64_t start = mc::virtualTimeNs();
    for (int i = 0; i < n; ++i) pool.execute([&, i] { count[i]++; done.fetch_add(1); done.notify_all(); });
    for (int d = done.load(); d < n; d = done.load()) done.wait(d);
    mc::check(mc::virtualTimeNs() - start < 1'000'000'000, "an accepted task was not started although threads of the pool are idle (until a time-out expired)");
    for (int i = 0; i < n; ++i) mc::check(count[i] == 1, "task did not run exactly once");
}
// exceptions of tasks with a result travel through the future and do not harm the pool
template<TaskType T>
void exceptions() {
    BasicThreadPool<T> pool("p", 1, 1);
    auto f = pool.execute([]() -> int { throw 42; });
    auto g = pool.execute([] { return 3; });
    try {
        (void) f.get();
        mc::fail("exception of a task is lost");
    } catch (int) {} // (the reference counts of exception texts are in libstdc++, invisible to the race detector)
    mc::check(g.get() == 3, "wrong result after an exception");
}
// while the only thread is busy, queued tasks wait in order of priority, equal priorities in order of acceptance
template<uint32_t P>
void put(BasicThreadPool<CPU_BOUND> &pool, std::vector<int> &order, int id) { pool.execute<"", P>([&order, id] { order.push_back(id); }); }
void priorities() {
    BasicThreadPool<CPU_BOUND> pool("p", 1, 1);
    std::vector<int>           order, prio;
    std::atomic<bool>          busy{ false }, go{ false };
    pool.execute([&] { busy = true; busy.notify_all(); go.wait(false); });
    busy.wait(false);
    for (int id = 0; id < 4; ++id) {
        const int p = mc::choose(3);
        prio.push_back(p);
        if (p == 0) put<0>(pool, order, id);
        else if (p == 1) put<5>(pool, order, id);
        else put<9>(pool, order, id);
    }
    mc::check(pool.numTasksQueued() == 4, "number of queued tasks is wrong");
    mc::check(pool.numTasksRunning() == 1, "number of running tasks is wrong");
    auto last = pool.execute([] { return 1; });
    go        = true;
    go.notify_all();
    (void) last.get();
    mc::check(order.size() == 4, "a task of lower priority overtook");
    for (size_t i = 0; i + 1 < order.size(); ++i) {
        const auto a = static_cast<size_t>(order[i]), b = static_cast<size_t>(order[i + 1]);
        mc::check(prio[a] > prio[b] || (prio[a] == prio[b] && a < b), "tasks do not run in order of their priority");
    }
}
// shutting down: running tasks finish, queued tasks either run or their futures say so, everything ends
template<TaskType T>
void shutdown(bool requestFirst) {
    std::future<int> f, g;
    int              started = 0;
    const int64_t    start   = mc::virtualTimeNs();
    {
        BasicThreadPool<T> pool("p", 1, 2);
        f = pool.execute([&] { started++; mc::point(); return 1; });
        if constexpr (T == CPU_BOUND) g = pool.execute([] { return 2; });
        if (requestFirst) {
            pool.requestShutdown();
            mc::check(pool.isShutdown() && pool.numThreads() == 0, "threads left after the shutdown");
        }
    }
    auto settle = [](std::future<int> &x, int v) {
        try {
            mc::check(x.get() == v, "wrong result");
            return true;
        } catch (const std::future_error &e) {
            mc::check(e.code() == std::future_errc::broken_promise, "wrong error");
            return false;
        }
    };
    const bool ran = settle(f, 1);
    mc::check(ran == (started == 1), "result of a task does not tell whether it ran");
    if (T == CPU_BOUND) { const bool second = settle(g, 2); mc::check(ran || !second, "later task ran instead of an earlier one"); }
    mc::check(mc::virtualTimeNs() - start < 1'000'000'000, "shutting down waits for a time-out");
}
// growing pool: a blocked task does not keep others from running; idle threads are given up again, but not below the minimum
void growShrink() {
    BasicThreadPool<IO_BOUND> pool("p", 1, 2);
    std::atomic<bool> release{ false };
    auto              a = pool.execute([&] { release.wait(false); return 1; });
    auto              b = pool.execute([&] { release = true; release.notify_all(); return 2; });
    mc::check(a.get() == 1 && b.get() == 2, "wrong result");
    mc::check(pool.numThreads() >= 2, "pool did not grow");
    for (int i = 0; i < 8 && pool.numThreads() > 1; ++i) std::this_thread::sleep_for(5s);
    mc::check(pool.numThreads() == 1, "idle threads are not given up / the minimum is not kept: " + std::to_string(pool.numThreads()));
    auto c = pool.execute([] { return 3; });
    mc::check(c.get() == 3, "wrong result");
}
// affinity and names apply to the threads of the pool, not to the caller
template<TaskType T>
void constraints() {
    const auto before = thread::getThreadAffinity();
    const auto name   = thread::getThreadName();
    BasicThreadPool<T> pool("pool", 2, 2);
    pool.waitUntilInitialised();
    std::vector<bool> mask;
    int               n = 0;
    for (int i = 0; i < 4; ++i) { mask.push_back(mc::choose(2)); n += mask.back(); }
    if (n < 2) return; // every thread needs a core
    try {
        pool.setAffinityMask(mask);
    } catch (const std::system_error &) { mc::fail("affinity cannot be set"); }
    mc::check(pool.getAffinityMask() == mask, "affinity mask is not the one set");
    mc::check(thread::getThreadAffinity() == before, "setting the affinity of the pool changes the calling thread");
    mc::check(thread::getThreadName() == name, "the calling thread was renamed");
    // both threads report their affinity
    std::atomic<int> in{ 0 };
    auto probe = [&] { in.fetch_add(1); in.notify_all(); for (int v = in.load(); v < 2; v = in.load()) in.wait(v); return thread::getThreadAffinity(); };
    auto f = pool.execute(probe);
    auto g = pool.execute(probe);
    auto a = f.get(), b = g.get();
    for (size_t i = 0; i < a.size(); ++i) {
        const bool m = i < mask.size() && mask[i];
        if (T == IO_BOUND) mc::check(a[i] == m && b[i] == m, "a thread of the pool does not have the affinity set");
        else mc::check((a[i] != b[i]) == m && !(a[i] && b[i]), "the cores are not distributed over the threads of the pool");
    }
    auto t = pool.template execute<"task">([] { return thread::getThreadName(); });
    mc::check(t.get() == "task", "task name is not the thread name");
}
mc::Options o(int p, int steps = 20000) { mc::Options x; x.preemptions = p; x.maxSteps = static_cast<uint64_t>(steps); x.maxSeconds = 120; x.early_timeout = false; x.eagerThreads = 3; return x; }
mc::Options t(int p, int steps = 20000) { mc::Options x; x.preemptions = p; x.maxSteps = static_cast<uint64_t>(steps); x.maxSeconds = 400; x.early_timeout = false; x.eagerThreads = 3; return x; }
const int registered = [] {
    mc::add("C22_cpu_1x1", [] { exactlyOnce<CPU_BOUND>(1, 1, 1, 2); }, o(2), t(3));
    mc::add("C22_cpu_2x2", [] { exactlyOnce<CPU_BOUND>(2, 2, 2, 1); }, o(1), t(2));
    mc::add("C22_io_1x2", [] { exactlyOnce<IO_BOUND>(1, 2, 1, 2); }, o(0), t(2));
    mc::add("C22_io_2callers", [] { exactlyOnce<IO_BOUND>(1, 2, 2, 1); }, o(0), t(1));
    mc::add("C22_void_cpu", [] { voidTasks<CPU_BOUND>(2, 2, 2); }, o(1), t(2));
    mc::add("C22_void_io", [] { voidTasks<IO_BOUND>(1, 2, 2); }, o(0), t(1));
    mc::add("C22_exceptions_cpu", [] { exceptions<CPU_BOUND>(); }, o(2), t(3));
    mc::add("C22_exceptions_io", [] { exceptions<IO_BOUND>(); }, o(0), t(2));
    mc::add("C22_priorities", [] { priorities(); }, o(1), t(2));
    mc::add("C22_shutdown_cpu", [] { shutdown<CPU_BOUND>(false); }, o(2), t(3));
    mc::add("C22_shutdown_io", [] { shutdown<IO_BOUND>(false); }, o(1), t(2));
    mc::add("C22_request_cpu", [] { shutdown<CPU_BOUND>(true); }, o(2), t(3));
    mc::add("C22_request_io", [] { shutdown<IO_BOUND>(true); }, o(1), t(2));
    mc::add("C22_grow_shrink", [] { growShrink(); }, o(0), t(1));
    mc::add("C22_constraints_cpu", [] { constraints<CPU_BOUND>(); }, o(0), t(1));
    mc::add("C22_constraints_io", [] { constraints<IO_BOUND>(); }, o(0), t(1));
    return 0;
}();
} // namespace
