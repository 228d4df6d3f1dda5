// C14 wait strategies, C15 consumer dependencies, C16 worker pool, C17 processor life cycle
#include "mc.h"
#include <array>
#include <cassert>
#include <future>
#include <iostream>
#include <disruptor/Disruptor.hpp>
#include <disruptor/IgnoreExceptionHandler.hpp>
#include <disruptor/WorkerPool.hpp>
#include <memory>
#include <thread>
#include <vector>

using namespace opencmw::disruptor;
using namespace std::chrono_literals;
using std::int64_t;

struct Ev {
    int64_t v = -1, a = -1, b = -1;
};
// ConsumerRepository prints unknown handlers
template<>
struct std::formatter<std::shared_ptr<IEventHandler<Ev>>, char> {
    constexpr auto parse(std::format_parse_context &ctx) { return ctx.begin(); }
    auto           format(const std::shared_ptr<IEventHandler<Ev>> &, auto &ctx) const { return std::format_to(ctx.out(), "handler"); }
};
struct TimeoutWS : TimeoutBlockingWaitStrategy {
    TimeoutWS() : TimeoutBlockingWaitStrategy(1ms) {}
};
static_assert(hasSignalAllWhenBlocking<TimeoutWS>);

template<std::size_t N, typename WS>
using Single = RingBuffer<Ev, N, WS, SingleThreadedStrategy>;
template<std::size_t N, typename WS>
using Multi = RingBuffer<Ev, N, WS, MultiThreadedStrategy>;
static std::string str(int64_t v) { return std::to_string(v); }

template<typename R>
static void put(R &r, int64_t v) {
    auto s  = r.next();
    r[s].v  = v;
    r.publish(s);
}
// waits for a sequence; TimeoutException -> try again (the caller of a timeout strategy has to)
static int64_t waitFor(ISequenceBarrier &b, int64_t seq) {
    for (;;) {
        try {
            auto r = b.waitFor(seq);
            if (r >= seq) return r;
        } catch (const TimeoutException &) {
        }
    }
}
// ---------------------------------------------------------------- C14
template<typename R>
static void wakeUp(int waiters, int events) {
    auto                     r = std::make_shared<R>();
    auto                     g = newBarrier(r, {});
    std::vector<std::thread> t;
    for (int w = 0; w < waiters; ++w)
        t.emplace_back([&] {
            for (int64_t i = 0; i < events; ++i) {
                const auto got = waitFor(*g, i);
                mc::check(got >= i && got < events, "waitFor(" + str(i) + ") returned " + str(got));
                mc::check((*r)[got].v == 100 + got, "event " + str(got) + " is not visible after waitFor()");
                mc::check((*r)[i].v == 100 + i, "event " + str(i) + " is not visible after waitFor()");
            }
        });
    for (int i = 0; i < events; ++i) put(*r, 100 + i);
    for (auto &x : t) x.join();
}
template<typename R>
static void outOfOrder() { // two claims, published in reverse order
    auto        r = std::make_shared<R>();
    auto        g = newBarrier(r, {});
    std::thread t([&] {
        for (int64_t i = 0; i < 2;) {
            int64_t got = -1;
            try {
                got = g->waitFor(i);
            } catch (const TimeoutException &) {
                continue;
            }
            mc::check(got <= 1, "beyond the last published event");
            for (; i <= got; ++i) mc::check((*r)[i].v == 100 + i, "event " + str(i) + " reported available before it was published");
        }
    });
    const auto  a = r->next(), b = r->next();
    (*r)[b].v = 100 + b;
    r->publish(b);
    (*r)[a].v = 100 + a;
    r->publish(a);
    t.join();
}
template<typename R>
static void dependent() { // the consumer has to wait for the dependency, not only for the publisher
    auto r   = std::make_shared<R>();
    auto dep = std::make_shared<Sequence>();
    auto g   = newBarrier(r, { dep });
    std::thread t([&] {
        const auto got = waitFor(*g, 0);
        mc::check(got == 0, "waitFor(0) returned " + str(got));
        mc::check((*r)[0].a == 7, "returned before the dependency has processed the event");
    });
    put(*r, 100);
    (*r)[0].a = 7;
    dep->setValue(0);
    t.join();
}
template<typename R>
static void alerted(int when) {
    auto r = std::make_shared<R>();
    auto g = newBarrier(r, {});
    if (when == 0) g->alert(); // before the wait
    bool        threw = false;
    std::thread t([&] {
        for (;;) {
            try {
                (void) g->waitFor(0);
            } catch (const AlertException &) {
                threw = true;
                return;
            } catch (const TimeoutException &) {
            }
        }
    });
    if (when == 1) g->alert();
    t.join();
    mc::check(threw, "alerted waiter returned normally");
    mc::check(g->isAlerted(), "alert is gone");
    g->clearAlert();
    mc::check(!g->isAlerted(), "alert cannot be cleared");
    put(*r, 1);
    mc::check(waitFor(*g, 0) == 0, "waiting after clearAlert()");
}
template<typename R>
static void alertedOnDependency() {
    auto        r   = std::make_shared<R>();
    auto        dep = std::make_shared<Sequence>();
    auto        g   = newBarrier(r, { dep });
    bool        threw = false;
    std::thread t([&] {
        for (;;) {
            try {
                (void) g->waitFor(0);
                return;
            } catch (const AlertException &) {
                threw = true;
                return;
            } catch (const TimeoutException &) {
            }
        }
    });
    put(*r, 1);
    g->alert();
    t.join();
    mc::check(threw, "alerted waiter returned although its dependency never advanced");
}
template<typename R>
static void timesOut(bool publish) {
    auto       r     = std::make_shared<R>();
    auto       g     = newBarrier(r, {});
    const auto start = mc::virtualTimeNs();
    if (publish) {
        std::thread t([&] {
            try {
                mc::check(g->waitFor(0) == 0 && (*r)[0].v == 5, "waitFor(0)");
            } catch (const TimeoutException &) {
                mc::check(mc::virtualTimeNs() - start >= 1000000, "timeout reported after " + str(mc::virtualTimeNs() - start) + " ns instead of 1 ms");
            }
        });
        put(*r, 5);
        t.join();
    } else {
        try {
            (void) g->waitFor(0);
            mc::fail("waitFor() returned although nothing was published");
        } catch (const TimeoutException &) {
            mc::check(mc::virtualTimeNs() - start >= 1000000, "timeout reported after " + str(mc::virtualTimeNs() - start) + " ns instead of 1 ms");
        }
        put(*r, 5);
        mc::check(g->waitFor(0) == 0, "waitFor() of a published event after a timeout");
    }
}
template<typename R>
static void backPressure() { // full ring, consumer waits with the strategy, producer waits for the consumer
    auto        r    = std::make_shared<R>();
    auto        g    = newBarrier(r, {});
    auto        seq  = std::make_shared<Sequence>();
    r->addGatingSequences({ seq });
    constexpr int n = 4;
    std::thread t([&] {
        for (int64_t i = 0; i < n;) {
            const auto got = waitFor(*g, i);
            for (; i <= got; ++i) mc::check((*r)[i].v == 100 + i, "event " + str(i) + " overwritten");
            seq->setValue(got);
        }
    });
    for (int i = 0; i < n; ++i) put(*r, 100 + i);
    t.join();
}
// ---------------------------------------------------------------- C15
struct Threads : ITaskScheduler { // one std::thread per task
    std::vector<std::thread> threads;
    void                     start(std::size_t) override {}
    void                     stop() override {
        for (auto &t : threads) t.join();
        threads.clear();
    }
    std::future<void> scheduleAndStart(std::packaged_task<void()> &&task) override {
        auto f = task.get_future();
        threads.emplace_back(std::move(task));
        return f;
    }
};
struct Handler : IEventHandler<Ev> {
    std::function<void(Ev &, int64_t, bool)> f;
    std::atomic<int64_t>                     done{ 0 };
    int64_t                                  expect = 0;
    explicit Handler(std::function<void(Ev &, int64_t, bool)> fn) : f(std::move(fn)) {}
    void onEvent(Ev &e, int64_t seq, bool end) override {
        mc::check(seq == expect, "handler got sequence " + str(seq) + " instead of " + str(expect));
        ++expect;
        f(e, seq, end);
        ++done;
    }
};
using HandlerPtr  = std::shared_ptr<Handler>;
using IHandlerPtr = std::shared_ptr<IEventHandler<Ev>>;
static HandlerPtr H(std::function<void(Ev &, int64_t, bool)> f) { return std::make_shared<Handler>(std::move(f)); }
template<std::size_t N, typename WS, template<std::size_t, typename> typename CS>
using Core = DisruptorCore<Ev, N, WS, CS>;

enum Topology { CHAIN, DIAMOND, FAN_OUT, AFTER, AND, THEN, PROCESSOR_THEN, AFTER_PROCESSOR, AND_PROCESSOR, AFTER_TWO, FACTORY, THEN_FACTORY, BARRIER };
template<typename F>
struct Factory : IEventProcessorFactory<Ev> {
    F f;
    explicit Factory(F fn) : f(std::move(fn)) {}
    std::shared_ptr<IEventProcessor> createEventProcessor(const std::shared_ptr<EventStore<Ev>> &, const std::vector<std::shared_ptr<Sequence>> &barrierSequences) override { return f(barrierSequences); }
};
template<typename C>
static void topology(Topology t, int n, bool throwing = false, bool useShutdown = false) {
    auto sched = std::make_shared<Threads>();
    auto core  = std::make_shared<C>(sched);
    if (throwing) core->setDefaultExceptionHandler(std::make_shared<IgnoreExceptionHandler<Ev>>());
    auto a = H([&](Ev &e, int64_t s, bool) {
        mc::check(e.v == 100 + s, "A: event " + str(s) + " holds " + str(e.v));
        e.a = 200 + s;
        if (throwing && s == 0) throw std::runtime_error("A");
    });
    auto b = H([&](Ev &e, int64_t s, bool) {
        mc::check(e.v == 100 + s, "B: event " + str(s) + " holds " + str(e.v));
        if (t == CHAIN || t == AFTER || t == THEN || t == PROCESSOR_THEN || t == AFTER_PROCESSOR || t == FACTORY || t == THEN_FACTORY || t == BARRIER) mc::check(e.a == 200 + s, "B saw event " + str(s) + " before A had processed it");
        e.b = 300 + s;
    });
    auto c = H([&](Ev &e, int64_t s, bool) {
        mc::check(e.v == 100 + s, "C: event " + str(s) + " holds " + str(e.v));
        mc::check(e.a == 200 + s, "C saw event " + str(s) + " before A had processed it");
        mc::check(e.b == 300 + s, "C saw event " + str(s) + " before B had processed it");
    });
    std::vector<HandlerPtr> ends;
    auto processorAt = [&](const std::shared_ptr<ISequenceBarrier> &barrier, const HandlerPtr &h) {
        auto p = std::make_shared<BatchEventProcessor<Ev>>(core->ringBuffer(), barrier, IHandlerPtr(h));
        p->setExceptionHandler(std::make_shared<IgnoreExceptionHandler<Ev>>());
        return std::shared_ptr<IEventProcessor>(p);
    };
    auto processor = [&](const std::vector<std::shared_ptr<Sequence>> &on, const HandlerPtr &h) { return processorAt(newBarrier(core->ringBuffer(), on), h); };
    auto factory   = [&](const HandlerPtr &h) {
        auto f = [&processor, h](const std::vector<std::shared_ptr<Sequence>> &on) { return processor(on, h); };
        return std::shared_ptr<IEventProcessorFactory<Ev>>(std::make_shared<Factory<decltype(f)>>(f));
    };
    switch (t) {
    case CHAIN: core->handleEventsWith(IHandlerPtr(a))->then(IHandlerPtr(b)); ends = { a, b }; break;
    case THEN: core->handleEventsWith(IHandlerPtr(a))->handleEventsWith(IHandlerPtr(b))->then(IHandlerPtr(c)); ends = { a, b, c }; break;
    case AFTER:
        core->handleEventsWith(IHandlerPtr(a));
        core->after(IHandlerPtr(a))->handleEventsWith(IHandlerPtr(b));
        ends = { a, b };
        break;
    case DIAMOND: core->handleEventsWith(std::vector<IHandlerPtr>{ a, b })->then(IHandlerPtr(c)); ends = { a, b, c }; break;
    case AND: {
        auto ga = core->handleEventsWith(IHandlerPtr(a));
        auto gb = core->handleEventsWith(IHandlerPtr(b));
        ga->And(gb)->then(IHandlerPtr(c));
        ends = { a, b, c };
        break;
    }
    case PROCESSOR_THEN: core->handleEventsWith(processor({}, a))->then(IHandlerPtr(b)); ends = { a, b }; break;
    case AFTER_PROCESSOR: core->after(processor({}, a))->handleEventsWith(IHandlerPtr(b)); ends = { a, b }; break;
    case AND_PROCESSOR: core->handleEventsWith(IHandlerPtr(a))->And(processor({}, b))->then(IHandlerPtr(c)); ends = { a, b, c }; break;
    case AFTER_TWO:
        core->handleEventsWith(IHandlerPtr(a));
        core->handleEventsWith(IHandlerPtr(b));
        core->after(std::vector<IHandlerPtr>{ a, b })->handleEventsWith(IHandlerPtr(c));
        ends = { a, b, c };
        break;
    case FACTORY: core->handleEventsWith(factory(a))->then(IHandlerPtr(b)); ends = { a, b }; break;
    case THEN_FACTORY: core->handleEventsWith(IHandlerPtr(a))->then(factory(b)); ends = { a, b }; break;
    case BARRIER: {
        auto barrier = core->handleEventsWith(IHandlerPtr(a))->asSequenceBarrier();
        core->handleEventsWith(processorAt(barrier, b));
        ends = { a, b };
        break;
    }
    case FAN_OUT: core->handleEventsWith(std::vector<IHandlerPtr>{ a, b }); ends = { a, b }; break;
    }
    core->start();
    for (int i = 0; i < n; ++i) core->publishEvent([&](Ev &&e, int64_t s) { mc::check(s == i, "sequence"); e.v = 100 + i; });
    const int64_t want = n;
    if (useShutdown) {
        // processors that do not run yet are not waited for (documented limit), so make sure they do
        mc::waitUntil([&] { for (auto &h : ends) if (h->done == 0) return false; return true; });
        core->shutdown(std::chrono::seconds(-1));
        for (auto &h : ends) mc::check(h->done == want, "shutdown() stopped a handler after " + str(h->done) + " of " + str(n) + " events");
    } else {
        mc::waitUntil([&] { for (auto &h : ends) if (h->done + (throwing && h == a) < want) return false; return true; });
        core->halt();
    }
    sched->stop();
    mc::check(core->cursor() == n - 1, "cursor");
}
// ---------------------------------------------------------------- C16
struct Executor : IExecutor {
    std::vector<std::thread> threads;
    std::future<void>        execute(const std::function<void()> &command) override {
        threads.emplace_back(command);
        return {};
    }
    void join() {
        for (auto &t : threads) t.join();
        threads.clear();
    }
};
struct Worker : IWorkHandler<Ev>, ILifecycleAware {
    std::vector<std::atomic<int>> &counts;
    bool                           throwing;
    std::atomic<int>               starts{ 0 }, stops{ 0 };
    Worker(std::vector<std::atomic<int>> &c, bool t) : counts(c), throwing(t) {}
    void onEvent(Ev &e) override {
        mc::check(starts == 1 && stops == 0, "event outside onStart/onShutdown");
        const auto i = e.v - 100;
        mc::check(i >= 0 && i < static_cast<int64_t>(counts.size()), "unknown event " + str(e.v));
        e.a = e.v; // plain write: two workers on one event are a race
        mc::check(++counts[static_cast<size_t>(i)] == 1, "event " + str(i) + " was handed to two workers");
        if (throwing) throw std::runtime_error("work");
    }
    void onStart() override { ++starts; }
    void onShutdown() override { ++stops; }
};
struct CountingExceptions : IExceptionHandler<Ev> {
    std::atomic<int> events{ 0 }, others{ 0 };
    void             handleEventException(const std::exception &, int64_t, Ev &) override { ++events; }
    void             handleOnTimeoutException(const std::exception &, int64_t) override { ++others; }
    void             handleOnStartException(const std::exception &) override { ++others; }
    void             handleOnShutdownException(const std::exception &) override { ++others; }
};
template<typename R>
static void workerPool(int workers, int n, bool throwing, bool drain) {
    auto                                           r = std::make_shared<R>();
    std::vector<std::atomic<int>>                  counts(static_cast<size_t>(n));
    std::vector<std::shared_ptr<Worker>>           ws;
    std::vector<std::shared_ptr<IWorkHandler<Ev>>> iws;
    for (int w = 0; w < workers; ++w) {
        ws.push_back(std::make_shared<Worker>(counts, throwing && w == 0));
        iws.push_back(ws.back());
    }
    auto                    exc = std::make_shared<CountingExceptions>();
    WorkerPool<Ev>          pool(r, newBarrier(r, {}), exc, iws);
    r->addGatingSequences(pool.getWorkerSequences());
    auto exec = std::make_shared<Executor>();
    pool.start(exec);
    mc::check(pool.isRunning(), "isRunning() after start()");
    for (int i = 0; i < n; ++i) put(*r, 100 + i);
    mc::waitUntil([&] { for (auto &w : ws) if (w->starts == 0) return false; return true; });
    if (drain) {
        pool.drainAndHalt();
        for (auto &c : counts) mc::check(c == 1, "drainAndHalt() returned before all published events were processed");
    } else {
        mc::waitUntil([&] { for (auto &c : counts) if (c == 0) return false; return true; });
        pool.halt();
    }
    mc::check(!pool.isRunning(), "isRunning() after halt");
    exec->join();
    for (auto &c : counts) mc::check(c == 1, "an event was lost");
    for (auto &w : ws) mc::check(w->starts == 1 && w->stops == 1, "onStart()/onShutdown() not called exactly once");
    mc::check(exc->others == 0, "spurious exception");
}
// ---------------------------------------------------------------- C17
struct Life : IEventHandler<Ev>, ILifecycleAware, ITimeoutHandler {
    std::atomic<int> starts{ 0 }, stops{ 0 };
    std::atomic<int> timeouts{ 0 };
    std::atomic<int> seen{ 0 };
    int64_t          expect = 0;
    int              throwAt = -1;
    int              throwOn = 0; // 1 onStart 2 onShutdown 4 onTimeout
    void             onEvent(Ev &e, int64_t seq, bool) override {
        mc::check(starts > stops, "event delivered outside onStart()..onShutdown()");
        mc::check(seq == expect, "sequence " + str(seq) + " instead of " + str(expect));
        mc::check(e.v == 100 + seq, "content of event " + str(seq));
        ++expect;
        ++seen;
        if (seq == throwAt) throw std::runtime_error("event");
    }
    void onStart() override {
        mc::check(starts == stops, "onStart() twice");
        ++starts;
        if (throwOn & 1) throw std::runtime_error("start");
    }
    void onShutdown() override {
        mc::check(stops == starts - 1, "onShutdown() without onStart()");
        ++stops;
        if (throwOn & 2) throw std::runtime_error("stop");
    }
    void onTimeout(int64_t) override {
        ++timeouts;
        if (throwOn & 4) throw std::runtime_error("timeout");
    }
};
struct Recorder : IExceptionHandler<Ev> {
    std::atomic<int>     start{ 0 }, stop{ 0 }, timeout{ 0 };
    std::vector<int64_t> events;
    void                 handleEventException(const std::exception &, int64_t s, Ev &e) override {
        mc::check(e.v == 100 + s, "exception handler got the wrong event");
        events.push_back(s);
    }
    void handleOnTimeoutException(const std::exception &, int64_t) override { ++timeout; }
    void handleOnStartException(const std::exception &) override { ++start; }
    void handleOnShutdownException(const std::exception &) override { ++stop; }
};
// a barrier following a script chosen by the explorer: every way in which events, time-outs and alerts can arrive
struct ScriptedBarrier : ISequenceBarrier {
    int64_t               total, available = -1;
    int                   extras; // remaining time-outs/alerts
    std::function<void(int64_t)> onWait = [](int64_t) {};
    std::function<void()>        halt   = [] {};
    std::function<void(int)>     told   = [](int) {}; // 1 time-out, 2 alert
    bool                  alerted = false;
    ScriptedBarrier(int64_t t, int e) : total(t), extras(e) {}
    int64_t waitFor(int64_t seq) override {
        onWait(seq);
        mc::check(seq >= 0 && seq <= available + 1, "waits for event " + str(seq) + " while " + str(available + 1) + " are available");
        if (alerted) throw AlertException();
        if (seq <= available) return available;
        if (available + 1 == total && extras == 0) {
            halt();
            throw AlertException();
        }
        const auto events = static_cast<size_t>(total - available - 1);
        const auto c      = mc::choose(static_cast<int>(events) + (extras > 0 ? 2 : 0));
        if (c >= static_cast<int>(events)) {
            --extras;
            told(c - static_cast<int>(events) + 1);
            if (c == static_cast<int>(events)) throw TimeoutException();
            throw AlertException(); // alerted although nobody halted this processor
        }
        available += c + 1;
        return available;
    }
    int64_t cursor() override { return available; }
    bool    isAlerted() override { return alerted; }
    void    alert() override { alerted = true; }
    void    clearAlert() override { alerted = false; }
    void    checkAlert() override { if (alerted) throw AlertException(); }
};
struct ScriptedHandler : IEventHandler<Ev>, IWorkHandler<Ev>, ITimeoutHandler {
    std::function<void(Ev &, int64_t, bool)> f;
    std::function<void(int64_t)>             t;
    int64_t                                  next = 0;
    void                                     onEvent(Ev &e, int64_t seq, bool eob) override { f(e, seq, eob); }
    void                                     onEvent(Ev &e) override { f(e, next, false); }
    void                                     onTimeout(int64_t s) override { t(s); }
};
template<typename R>
static void scripted(bool worker, int64_t total, int extras, bool throwing) {
    auto r = std::make_shared<R>();
    for (int64_t i = 0; i < total; ++i) put(*r, 100 + i);
    auto b   = std::make_shared<ScriptedBarrier>(total, extras);
    auto h   = std::make_shared<ScriptedHandler>();
    auto rec = std::make_shared<Recorder>();
    int  timeoutsSent = 0, timeoutsSeen = 0;
    std::vector<int64_t>             thrown;
    std::shared_ptr<IEventProcessor> p;
    if (worker) {
        p = WorkProcessor<Ev>::create(r, b, h, rec, std::make_shared<Sequence>());
    } else {
        auto be = std::make_shared<BatchEventProcessor<Ev>>(r, b, h);
        be->setExceptionHandler(rec);
        p = be;
    }
    h->f = [&](Ev &e, int64_t seq, bool eob) {
        mc::check(seq == h->next, "event " + str(seq) + " delivered instead of " + str(h->next));
        mc::check(e.v == 100 + h->next, "content of event " + str(h->next));
        mc::check(h->next <= b->available, "event delivered before it was available");
        mc::check(p->sequence()->value() < h->next, "the event being processed is reported as processed");
        if (!worker) mc::check(eob == (seq == b->available), std::string("event ") + str(seq) + " of a batch up to " + str(b->available) + (eob ? " is" : " is not") + " marked as its last one");
        ++h->next;
        if (throwing && mc::choose(2)) {
            thrown.push_back(h->next - 1);
            throw std::runtime_error("event");
        }
    };
    h->t = [&](int64_t s) {
        ++timeoutsSeen;
        mc::check(s == h->next - 1, "time-out reported with sequence " + str(s) + " after " + str(h->next) + " processed events");
    };
    b->onWait = [&](int64_t seq) {
        mc::check(seq == h->next, "waits for event " + str(seq) + " instead of " + str(h->next));
        mc::check(p->sequence()->value() == h->next - 1, "position " + str(p->sequence()->value()) + " reported after " + str(h->next) + " processed events");
        mc::check(rec->events == thrown, "exception handler calls");
        mc::check(timeoutsSeen == timeoutsSent, "time-outs seen by the handler");
    };
    b->told = [&](int what) { timeoutsSent += what == 1; };
    b->halt = [&] { p->halt(); };
    p->run();
    mc::check(h->next == total, "ended after " + str(h->next) + " of " + str(total) + " events");
    mc::check(rec->events == thrown && timeoutsSeen == timeoutsSent, "exceptions or time-outs not passed on");
    mc::check(!p->isRunning(), "running after halt");
}
template<typename R>
static void lifecycle(int n, int throwAt, int throwOn, bool twice = false) {
    auto r    = std::make_shared<R>();
    auto life = std::make_shared<Life>();
    auto rec  = std::make_shared<Recorder>();
    life->throwAt = throwAt;
    life->throwOn = throwOn;
    auto p = std::make_shared<BatchEventProcessor<Ev>>(r, newBarrier(r, {}), life);
    p->setExceptionHandler(rec);
    r->addGatingSequences({ p->sequence() });
    mc::check(!p->isRunning(), "running before run()");
    std::thread t([&] { p->run(); });
    for (int i = 0; i < n; ++i) put(*r, 100 + i);
    mc::waitUntil([&] { return p->sequence()->value() == n - 1; });
    mc::check(life->seen == n, "sequence reports " + str(n) + " events, handler saw " + str(life->seen));
    mc::check(p->isRunning(), "not running");
    p->halt();
    t.join();
    mc::check(!p->isRunning(), "running after halt");
    mc::check(life->starts == 1 && life->stops == 1, "onStart/onShutdown not called exactly once");
    if (twice) { // documented: may be run again after a halt
        std::thread u([&] { p->run(); });
        put(*r, 100 + n);
        mc::waitUntil([&] { return p->sequence()->value() == n; });
        p->halt();
        u.join();
        mc::check(life->starts == 2 && life->stops == 2 && life->seen == n + 1, "second run");
    }
    std::vector<int64_t> want;
    if (throwAt >= 0) want.push_back(throwAt);
    mc::check(rec->events == want, "exception handler calls");
    mc::check(rec->start == (throwOn & 1 ? life->starts.load() : 0) && rec->stop == (throwOn & 2 ? life->stops.load() : 0), "exceptions of onStart/onShutdown not reported");
    mc::check(rec->timeout == (throwOn & 4 ? life->timeouts.load() : 0), "exceptions of onTimeout not reported");
}
template<typename R>
static void haltWhileStarting(bool started) {
    auto r    = std::make_shared<R>();
    auto life = std::make_shared<Life>();
    auto p    = std::make_shared<BatchEventProcessor<Ev>>(r, newBarrier(r, {}), life);
    std::thread t([&] { p->run(); });
    if (started) mc::waitUntil([&] { return p->isRunning(); });
    p->halt();
    t.join();
    mc::check(!p->isRunning(), "running after halt");
    mc::check(life->starts == life->stops, "onStart/onShutdown do not match");
}
template<typename R>
static void runTwiceAtOnce() {
    auto r    = std::make_shared<R>();
    auto life = std::make_shared<Life>();
    auto p    = std::make_shared<BatchEventProcessor<Ev>>(r, newBarrier(r, {}), life);
    p->setExceptionHandler(std::make_shared<Recorder>());
    std::atomic<int> refused{ 0 };
    auto             run = [&] { try { p->run(); } catch (const std::runtime_error &) { ++refused; } };
    std::thread      t(run), u(run);
    put(*r, 100);
    mc::waitUntil([&] { return refused == 1 && life->starts == 1 && life->seen == 1; });
    p->halt();
    t.join();
    u.join();
    mc::check(refused == 1 && life->starts == 1 && life->stops == 1, "two threads ran one processor");
}
template<typename R>
static void haltWorkersWhileStarting() {
    auto                          r = std::make_shared<R>();
    std::vector<std::atomic<int>> counts(1);
    auto                          w    = std::make_shared<Worker>(counts, false);
    auto                          seq  = std::make_shared<Sequence>();
    auto                          p    = WorkProcessor<Ev>::create(r, newBarrier(r, {}), w, std::make_shared<CountingExceptions>(), seq);
    std::thread                   t([&] { p->run(); });
    mc::waitUntil([&] { return p->isRunning(); });
    p->halt();
    t.join();
    mc::check(!p->isRunning() && w->starts == 1 && w->stops == 1, "work processor after halt");
}
template<typename C>
static void haltGroupWhileStarting() {
    auto sched = std::make_shared<Threads>();
    auto core  = std::make_shared<C>(sched);
    auto l1 = std::make_shared<Life>(), l2 = std::make_shared<Life>();
    auto p1 = std::make_shared<BatchEventProcessor<Ev>>(core->ringBuffer(), newBarrier(core->ringBuffer(), {}), l1);
    auto barrier = newBarrier(core->ringBuffer(), {});
    auto p2 = std::make_shared<BatchEventProcessor<Ev>>(core->ringBuffer(), barrier, l1);
    auto p3 = std::make_shared<BatchEventProcessor<Ev>>(core->ringBuffer(), barrier, l2);
    core->handleEventsWith(std::vector<std::shared_ptr<IEventProcessor>>{ p2, p3 });
    core->start();
    mc::waitUntil([&] { return p2->isRunning() && p3->isRunning(); });
    core->halt();
    sched->stop();
    mc::check(!p2->isRunning() && !p3->isRunning(), "processors run after halt()");
}

template<typename WS>
static void strategy(const std::string &name) {
    auto q = [](int p) { mc::Options o; o.preemptions = p; return o; };
    mc::add("C14_wake_" + name, [] { wakeUp<Single<4, WS>>(1, 2); }, q(3), q(5));
    mc::add("C14_wake_multi_" + name, [] { wakeUp<Multi<4, WS>>(1, 2); }, q(3), q(4));
    mc::add("C14_wake_two_" + name, [] { wakeUp<Single<4, WS>>(2, 1); }, q(2), q(3));
    mc::add("C14_out_of_order_" + name, [] { outOfOrder<Multi<4, WS>>(); }, q(3), q(4));
    mc::add("C14_dependent_" + name, [] { dependent<Single<4, WS>>(); }, q(3), q(5));
    mc::add("C14_alert_before_" + name, [] { alerted<Single<4, WS>>(0); }, q(2), q(3));
    mc::add("C14_alert_" + name, [] { alerted<Single<4, WS>>(1); }, q(3), q(5));
    mc::add("C14_alert_dependency_" + name, [] { alertedOnDependency<Single<4, WS>>(); }, q(2), q(4));
    mc::add("C14_back_pressure_" + name, [] { backPressure<Single<2, WS>>(); }, q(2), q(4));
}
static const bool init = [] {
    auto q = [](int p) { mc::Options o; o.preemptions = p; return o; };
    strategy<BlockingWaitStrategy>("blocking");
    strategy<BusySpinWaitStrategy>("busyspin");
    strategy<SleepingWaitStrategy>("sleeping");
    strategy<SpinWaitWaitStrategy>("spinwait");
    strategy<YieldingWaitStrategy>("yielding");
    strategy<TimeoutWS>("timeout");
    mc::add("C14_timeout", [] { timesOut<Single<2, TimeoutWS>>(false); }, q(3), q(5));
    mc::add("C14_timeout_or_event", [] { timesOut<Single<2, TimeoutWS>>(true); }, q(3), q(5));

    using S2 = Core<2, BlockingWaitStrategy, SingleThreadedStrategy>;
    using B2 = Core<2, BusySpinWaitStrategy, SingleThreadedStrategy>;
    using M2 = Core<2, BlockingWaitStrategy, MultiThreadedStrategy>;
    mc::add("C15_chain", [] { topology<S2>(CHAIN, 3); }, q(2), q(3));
    mc::add("C15_chain_spin", [] { topology<B2>(CHAIN, 3); }, q(2), q(3));
    mc::add("C15_chain_multi", [] { topology<M2>(CHAIN, 3); }, q(1), q(2));
    mc::add("C15_chain_throwing", [] { topology<S2>(CHAIN, 3, true); }, q(1), q(2));
    mc::add("C15_chain_shutdown", [] { topology<S2>(CHAIN, 3, false, true); }, q(1), q(2));
    mc::add("C15_then", [] { topology<B2>(THEN, 3); }, q(1), q(2));
    mc::add("C15_then_blocking", [] { topology<S2>(THEN, 2); }, q(0), q(1));
    mc::add("C15_after", [] { topology<B2>(AFTER, 3); }, q(2), q(3));
    mc::add("C15_diamond", [] { topology<B2>(DIAMOND, 3); }, q(1), q(2));
    mc::add("C15_diamond_blocking", [] { topology<S2>(DIAMOND, 3); }, q(0), q(1));
    mc::add("C15_diamond_multi", [] { topology<M2>(DIAMOND, 2); }, q(0), q(1));
    mc::add("C15_and", [] { topology<B2>(AND, 3); }, q(1), q(2));
    mc::add("C15_own_processors", [] {
        static constexpr Topology two[]{ PROCESSOR_THEN, AFTER_PROCESSOR, FACTORY, THEN_FACTORY, BARRIER };
        topology<B2>(two[mc::choose(5)], 3);
    }, q(1), q(2));
    mc::add("C15_joined", [] { topology<B2>(mc::choose(2) ? AND_PROCESSOR : AFTER_TWO, 3); }, q(0), q(1));
    mc::add("C15_fan_out", [] { topology<S2>(FAN_OUT, 3); }, q(2), q(3));

    mc::add("C16_two_workers", [] { workerPool<Multi<4, BlockingWaitStrategy>>(2, 3, false, false); }, q(1), q(2));
    mc::add("C16_two_workers_spin", [] { workerPool<Single<2, BusySpinWaitStrategy>>(2, 3, false, false); }, q(1), q(3));
    mc::add("C16_drain", [] { workerPool<Multi<2, BlockingWaitStrategy>>(2, 3, false, true); }, q(1), q(2));
    mc::add("C16_drain_spin", [] { workerPool<Single<4, BusySpinWaitStrategy>>(2, 3, false, true); }, q(2), q(3));
    mc::add("C16_throwing", [] { workerPool<Multi<2, BusySpinWaitStrategy>>(2, 3, true, true); }, q(1), q(2));
    mc::add("C16_one_worker", [] { workerPool<Multi<2, BlockingWaitStrategy>>(1, 3, false, true); }, q(2), q(3));

    using SB = Single<2, BlockingWaitStrategy>;
    using SS = Single<2, BusySpinWaitStrategy>;
    using ST = Single<2, TimeoutWS>;
    mc::add("C17_lifecycle", [] { lifecycle<SB>(3, -1, 0); }, q(2), q(4));
    mc::add("C17_lifecycle_spin", [] { lifecycle<SS>(3, -1, 0); }, q(2), q(4));
    mc::add("C17_lifecycle_multi", [] { lifecycle<Multi<2, BlockingWaitStrategy>>(3, -1, 0); }, q(2), q(3));
    mc::add("C17_rerun", [] { lifecycle<SB>(2, -1, 0, true); }, q(2), q(3));
    mc::add("C17_throw_first", [] { lifecycle<SB>(3, 0, 0); }, q(2), q(3));
    mc::add("C17_throw_second", [] { lifecycle<SS>(4, 1, 0); }, q(2), q(3));
    mc::add("C17_throw_last", [] { lifecycle<SB>(3, 2, 3); }, q(2), q(3));
    mc::add("C17_timeouts", [] { lifecycle<ST>(2, -1, 4); }, q(2), q(3));
    mc::add("C17_halt_starting", [] { haltWhileStarting<SB>(true); }, q(3), q(6));
    mc::add("C17_halt_starting_spin", [] { haltWhileStarting<SS>(true); }, q(3), q(6));
    mc::add("C17_halt_workers_starting", [] { haltWorkersWhileStarting<Multi<2, BlockingWaitStrategy>>(); }, q(3), q(5));
    mc::add("C17_halt_group_starting", [] { haltGroupWhileStarting<S2>(); }, q(2), q(3));
    mc::add("C17_halt_before_run", [] { haltWhileStarting<SB>(false); }, q(2), q(2));
    using S8 = Single<8, BlockingWaitStrategy>;
    mc::add("C17_scripted", [] { scripted<S8>(false, 5, 2, false); }, q(0), q(0));
    mc::add("C17_scripted_throwing", [] { scripted<S8>(false, 4, 1, true); }, q(0), q(0));
    mc::add("C16_scripted", [] { scripted<S8>(true, 5, 2, false); }, q(0), q(0));
    mc::add("C16_scripted_throwing", [] { scripted<S8>(true, 4, 1, true); }, q(0), q(0));
    mc::add("C17_run_twice_at_once", [] { runTwiceAtOnce<SB>(); }, q(2), q(4));
    return true;
}();
