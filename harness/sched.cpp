// C23 task schedulers, executor and blocking queue
#include "mc.h"
#include <array>
#include <atomic>
#include <cassert>
#include <functional>
#include <future>
#include <memory>
#include <opencmw.hpp>
#include <disruptor/BasicExecutor.hpp>
#include <disruptor/BlockingQueue.hpp>
#include <disruptor/RoundRobinThreadAffinedTaskScheduler.hpp>
#include <disruptor/ThreadPerTaskScheduler.hpp>
#include <thread>
#include <string>
#include <vector>

using namespace opencmw::disruptor;
using namespace std::chrono_literals;
static std::string str(long v) { return std::to_string(v); }

static void queue(int producers, int each, int consumers, bool timed) {
    BlockingQueue<int>            q;
    const int                     total = producers * each;
    std::vector<std::atomic<int>> seen(static_cast<size_t>(total));
    std::vector<std::vector<int>> got(static_cast<size_t>(consumers));
    std::vector<std::thread>      t;
    for (int c = 0; c < consumers; ++c)
        t.emplace_back([&, c] {
            for (int i = 0; i < total / consumers; ++i) {
                int v = -1;
                if (timed) {
                    for (auto start = mc::virtualTimeNs(); !q.timedWaitAndPop(v, 5ms); start = mc::virtualTimeNs())
                        mc::check(mc::virtualTimeNs() - start >= 5000000, "timed pop gave up too early");
                } else {
                    v = q.pop();
                }
                mc::check(v >= 0 && v < total && ++seen[static_cast<size_t>(v)] == 1, "element " + str(v) + " delivered twice or invented");
                got[static_cast<size_t>(c)].push_back(v);
            }
        });
    auto produce = [&](int p) {
        for (int i = 0; i < each; ++i) {
            if (i % 2) {
                q.push(p * each + i);
            } else {
                const int v = p * each + i;
                q.push(v);
            }
        }
    };
    for (int p = 1; p < producers; ++p) t.emplace_back(produce, p);
    produce(0);
    for (auto &x : t) x.join();
    mc::check(q.empty(), "queue not empty");
    for (auto &s : seen) mc::check(s == 1, "element lost");
    for (auto &g : got)
        for (size_t i = 0; i < g.size(); ++i)
            for (size_t j = i + 1; j < g.size(); ++j)
                mc::check(g[i] / each != g[j] / each || g[i] < g[j], "elements of one producer reordered");
}
static void timedPop() { // nothing comes / something comes
    BlockingQueue<int> q;
    int                v     = -1;
    const auto         start = mc::virtualTimeNs();
    mc::check(!q.timedWaitAndPop(v, 5ms), "popped from an empty queue");
    mc::check(mc::virtualTimeNs() - start >= 5000000, "timed out too early");
    mc::check(v == -1, "value changed");
    std::thread t([&] { q.push(7); });
    while (!q.timedWaitAndPop(v, 5ms)) {}
    mc::check(v == 7, "value");
    t.join();
}
template<typename S>
static void tasks(std::size_t threads, int n, bool throwing, int batch) {
    auto                          s = std::make_shared<S>();
    BasicExecutor                 e(s);
    std::vector<std::atomic<int>> ran(static_cast<size_t>(n));
    std::vector<int>              plain(static_cast<size_t>(n), 0);
    s->start(threads);
    s->start(threads); // no effect
    std::vector<std::future<void>> f;
    for (int i = 0; i < n; ++i) {
        f.push_back(e.execute([&, i] {
            mc::check(++ran[static_cast<size_t>(i)] == 1, "task " + str(i) + " ran twice");
            plain[static_cast<size_t>(i)] = i + 1;
            if (throwing && i == 0) throw std::runtime_error("task");
        }));
        if (static_cast<int>(f.size()) == batch)
            for (auto &x : f) x.wait();
    }
    for (int i = 0; i < n; ++i) {
        f[static_cast<size_t>(i)].wait();
        f[static_cast<size_t>(i)].get();
        mc::check(plain[static_cast<size_t>(i)] == i + 1, "future ready before task " + str(i) + " has run");
    }
    s->stop();
    s->stop(); // no effect
    for (auto &r : ran) mc::check(r == 1, "task ran " + str(r) + " times");
}
template<typename S>
static void rawTasks() { // a raw packaged task reports its exception through the future
    auto s = std::make_shared<S>();
    s->start(1);
    int                        done = 0;
    std::packaged_task<void()> a([] { throw std::runtime_error("x"); }), b([&] { done = 1; });
    auto                       fa = s->scheduleAndStart(std::move(a)), fb = s->scheduleAndStart(std::move(b));
    bool                       threw = false;
    try {
        fa.get();
    } catch (const std::runtime_error &) {
        threw = true;
    }
    mc::check(threw, "exception of a task lost");
    fb.get();
    mc::check(done == 1, "task did not run");
    s->stop();
}
static void stopWhileBusy(int warm) { // stop() returns, no task runs afterwards, a ready future means the task has run
    std::atomic<int>   ran{ 0 };
    std::future<void>  fa, fb;
    {
        RoundRobinThreadAffinedTaskScheduler s;
        s.start(2);
        if (warm) {
            std::packaged_task<void()> z([] {});
            s.scheduleAndStart(std::move(z)).wait();
        }
        std::packaged_task<void()> a([&] { ++ran; }), b([&] { ++ran; });
        fa = s.scheduleAndStart(std::move(a));
        fb = s.scheduleAndStart(std::move(b));
        s.stop();
        const int after = ran;
        mc::point();
        int ready = 0;
        for (auto *f : { &fa, &fb }) ready += f->wait_for(0s) == std::future_status::ready;
        mc::check(ready == after && ran == after, "after stop(): " + str(ready) + " futures ready, " + str(after) + " tasks executed");
    }
}
static void rejectedStart() { // a start that was refused leaves the scheduler stopped, it can be started properly afterwards
    RoundRobinThreadAffinedTaskScheduler s;
    bool                                 threw = false;
    try {
        s.start(0);
    } catch (const std::out_of_range &) {
        threw = true;
    }
    mc::check(threw, "start(0) accepted");
    s.start(1);
    int                        done = 0;
    std::packaged_task<void()> a([&] { done = 1; });
    s.scheduleAndStart(std::move(a)).wait();
    mc::check(done == 1, "task did not run");
    s.stop();
}
template<typename S>
static void restart(std::size_t threads) {
    S                s;
    std::atomic<int> ran{ 0 };
    for (int round = 0; round < 2; ++round) {
        s.start(threads);
        std::packaged_task<void()> a([&] { ++ran; });
        s.scheduleAndStart(std::move(a)).wait();
        mc::check(ran == round + 1, "task of run " + str(round) + " did not run");
        s.stop();
        mc::check(ran == round + 1, "task ran again");
    }
}
template<typename S>
static void interdependent(std::size_t threads) { // a task waiting for another one does not keep it from running
    S                          s;
    std::promise<void>         p;
    std::atomic<int>           ran{ 0 };
    std::packaged_task<void()> a([&] { p.get_future().wait(); ++ran; }), b([&] { ++ran; p.set_value(); });
    s.start(threads);
    auto fa = s.scheduleAndStart(std::move(a)), fb = s.scheduleAndStart(std::move(b));
    fa.wait();
    fb.wait();
    s.stop();
    mc::check(ran == 2, str(ran) + " of 2 tasks ran");
}
template<typename S>
static void stopWaits() { // stop() waits for the task being executed
    S                          s;
    std::atomic<int>           state{ 0 };
    std::packaged_task<void()> a([&] { state = 1; std::this_thread::sleep_for(3ms); state = 2; });
    s.start(1);
    auto f = s.scheduleAndStart(std::move(a));
    mc::waitUntil([&] { return state > 0; });
    s.stop();
    mc::check(state == 2, "stop() returned while a task was running");
    mc::check(f.wait_for(0s) == std::future_status::ready, "the future of an executed task is not ready");
}
static void manyElements(int n) { // long history of pushes and pops at every fill level
    BlockingQueue<std::shared_ptr<int>> q;
    int                                 in = 0, out = 0;
    for (int level = 1; level <= n; ++level) {
        while (in - out < level) {
            auto v = std::make_shared<int>(in++);
            if (in & 1) q.push(v);
            else q.push(std::move(v));
        }
        mc::check(!q.empty(), "empty() with " + str(level) + " elements");
        for (int i = 0; i <= level / 2; ++i) {
            std::shared_ptr<int> v;
            if (i & 1) v = q.pop();
            else mc::check(q.timedWaitAndPop(v, 1ms), "timed pop failed with " + str(in - out) + " elements");
            mc::check(v && *v == out, "element " + str(v ? *v : -1) + " instead of " + str(out));
            ++out;
        }
    }
    while (out < in) mc::check(*q.pop() == out++, "element");
    std::shared_ptr<int> v;
    mc::check(q.empty() && !q.timedWaitAndPop(v, 1ms), "element from nowhere");
}
static void queueEmpty() { // empty() tells the truth while others push and pop
    BlockingQueue<std::string> queue;
    mc::check(queue.empty(), "a new queue is not empty");
    std::atomic<int> pushed{ 0 };
    std::thread      producer([&] {
        const std::string a = "a";
        queue.push(a);
        mc::check(a == "a", "pushing a constant value changed it");
        ++pushed;
        queue.push(std::string("b"));
        ++pushed;
    });
    const bool before = pushed > 0;
    mc::check(!(before && queue.empty()), "empty() although an element was pushed and none taken");
    (void) queue.empty();
    mc::check(queue.pop() == "a", "first element");
    std::string v;
    while (!queue.timedWaitAndPop(v, std::chrono::seconds(10))) {}
    mc::check(v == "b", "second element");
    mc::check(queue.empty(), "not empty although everything was taken");
    producer.join();
    mc::check(queue.empty(), "not empty although everything was taken");
}
static const bool init = [] {
    auto q = [](int p) { mc::Options o; o.preemptions = p; return o; };
    mc::add("C23_queue_1_1", [] { queue(1, 3, 1, false); }, q(5), q(7));
    mc::add("C23_queue_2_1", [] { queue(2, 2, 1, false); }, q(4), q(5));
    mc::add("C23_queue_1_2", [] { queue(1, 4, 2, false); }, q(4), q(5));
    mc::add("C23_queue_2_2", [] { queue(2, 2, 2, false); }, q(3), q(4));
    mc::add("C23_queue_empty", queueEmpty, q(4), q(6));
    mc::add("C23_queue_timed", [] { queue(2, 1, 2, true); }, q(3), q(4));
    mc::add("C23_timed_pop", [] { timedPop(); }, q(4), q(6));
    mc::add("C23_pool_1", [] { tasks<RoundRobinThreadAffinedTaskScheduler>(1, 2, false, 9); }, q(3), q(5));
    mc::add("C23_pool_2", [] { tasks<RoundRobinThreadAffinedTaskScheduler>(2, 2, true, 9); }, q(3), q(4));
    mc::add("C23_pool_batches", [] { tasks<RoundRobinThreadAffinedTaskScheduler>(2, 3, false, 1); }, q(2), q(3));
    mc::add("C23_pool_raw", [] { rawTasks<RoundRobinThreadAffinedTaskScheduler>(); }, q(3), q(4));
    mc::add("C23_pool_stop", [] { stopWhileBusy(1); }, q(3), q(4));
    mc::add("C23_pool_stop_cold", [] { stopWhileBusy(0); }, q(3), q(4));
    mc::add("C23_pool_rejected_start", [] { rejectedStart(); }, q(2), q(4));
    mc::add("C23_pool_restart", [] { restart<RoundRobinThreadAffinedTaskScheduler>(1); }, q(2), q(3));
    mc::add("C23_per_task_restart", [] { restart<ThreadPerTaskScheduler>(0); }, q(2), q(3));
    mc::add("C23_pool_interdependent", [] { interdependent<RoundRobinThreadAffinedTaskScheduler>(2); }, q(2), q(3));
    mc::add("C23_per_task_interdependent", [] { interdependent<ThreadPerTaskScheduler>(0); }, q(2), q(3));
    mc::add("C23_pool_stop_waits", [] { stopWaits<RoundRobinThreadAffinedTaskScheduler>(); }, q(2), q(4));
    mc::add("C23_per_task_stop_waits", [] { stopWaits<ThreadPerTaskScheduler>(); }, q(2), q(4));
    mc::add("C23_pool_many", [] { tasks<RoundRobinThreadAffinedTaskScheduler>(1, 24, true, 9); }, q(0), q(1));
    mc::add("C23_queue_many", [] { manyElements(70); }, q(0), q(0));
    mc::add("C23_per_task", [] { tasks<ThreadPerTaskScheduler>(0, 2, true, 9); }, q(3), q(4));
    mc::add("C23_per_task_one", [] { tasks<ThreadPerTaskScheduler>(0, 1, false, 9); }, q(4), q(5));
    mc::add("C23_per_task_raw", [] { rawTasks<ThreadPerTaskScheduler>(); }, q(3), q(4));
    return true;
}();
