// C24 aggregate event handler
#include "seq.h"
#include <cassert>
#include <disruptor/AggregateEventHandler.hpp>
#include <memory>
#include <string>
#include <vector>

using namespace opencmw::disruptor;
using std::int64_t;
static std::string str(int64_t v) { return std::to_string(v); }
struct Ev {
    std::vector<int> trace;
};
struct Log {
    std::string s;
};
struct Plain : IEventHandler<Ev> {
    int  id;
    Log &log;
    int  throwAt; // sequence at which onEvent throws
    Plain(int i, Log &l, int t) : id(i), log(l), throwAt(t) {}
    void onEvent(Ev &e, int64_t seq, bool end) override {
        e.trace.push_back(id);
        log.s += "e" + str(id) + ":" + str(seq) + (end ? "!" : "") + " ";
        if (seq == throwAt) throw std::runtime_error("handler " + str(id));
    }
};
struct Aware : Plain, ILifecycleAware {
    using Plain::Plain;
    void onStart() override { log.s += "start" + str(id) + " "; }
    void onShutdown() override { log.s += "stop" + str(id) + " "; }
};
static void aggregate(bool nested) {
    const int                                       n = seq::choose(seq::thorough() ? 6 : 5);
    Log                                             log;
    std::vector<std::shared_ptr<IEventHandler<Ev>>> hs;
    std::vector<int>                                kind, thr;
    for (int i = 0; i < n; ++i) {
        kind.push_back(seq::choose(3)); // plain, lifecycle aware, same handler again
        thr.push_back(seq::choose(2) ? 1 : -1);
        if (kind.back() == 2 && i == 0) return;
        if (kind.back() == 2) hs.push_back(hs.back());
        else if (kind.back() == 1) hs.push_back(std::make_shared<Aware>(i, log, thr.back()));
        else hs.push_back(std::make_shared<Plain>(i, log, thr.back()));
    }
    auto                            original = hs;
    auto                            inner    = std::make_shared<AggregateEventHandler<Ev>>(hs);
    std::shared_ptr<IEventHandler<Ev>> top   = inner;
    hs.clear(); // the aggregate keeps its own list
    if (nested) top = std::make_shared<AggregateEventHandler<Ev>>(std::vector<std::shared_ptr<IEventHandler<Ev>>>{ inner });
    auto life = std::dynamic_pointer_cast<ILifecycleAware>(top);
    SEQ_CHECK(life != nullptr, "aggregate is not lifecycle aware");
    std::vector<std::shared_ptr<Plain>> plain;
    for (auto &h : original) plain.push_back(std::dynamic_pointer_cast<Plain>(h));
    std::string expect;
    auto        lifecycle = [&](const char *what) {
        for (auto &p : plain)
            if (dynamic_cast<Aware *>(p.get())) expect += what + str(p->id) + " ";
    };
    const bool started = seq::choose(2);
    if (started) {
        life->onStart();
        lifecycle("start");
    }
    SEQ_CHECK(log.s == expect, "onStart(): called '" + log.s + "' instead of '" + expect + "'");
    for (int64_t s = 0; s < 3; ++s) {
        const bool end = seq::choose(2);
        Ev         e;
        bool       thrown = false, want = false;
        std::vector<int> order;
        std::string message, wantMessage;
        for (auto &p : plain) {
            expect += "e" + str(p->id) + ":" + str(s) + (end ? "!" : "") + " ";
            order.push_back(p->id);
            if (p->throwAt == s) { want = true; wantMessage = "handler " + str(p->id); break; }
        }
        try {
            top->onEvent(e, s, end);
        } catch (const std::runtime_error &x) {
            thrown  = true;
            message = x.what();
        }
        seq::transition();
        SEQ_CHECK(log.s == expect, "calls '" + log.s + "' instead of '" + expect + "'");
        SEQ_CHECK(e.trace == order, "handlers did not get the same event in order");
        SEQ_CHECK(thrown == want && message == wantMessage, "exception of a handler not passed on");
    }
    life->onShutdown();
    lifecycle("stop");
    SEQ_CHECK(log.s == expect, "onShutdown(): called '" + log.s + "' instead of '" + expect + "'");
    seq::state(expect);
    seq::sample(expect);
}
struct Picky : Plain, ILifecycleAware { // throws in the chosen life-cycle calls
    bool atStart, atStop;
    Picky(int i, Log &l, bool a, bool b) : Plain(i, l, -1), atStart(a), atStop(b) {}
    void onStart() override { log.s += "start" + str(id) + " "; if (atStart) throw id; }
    void onShutdown() override { log.s += "stop" + str(id) + " "; if (atStop) throw id; }
};
static void lifecycleExceptions() { // like calling the handlers one after the other: the first exception ends the call and is passed on
    const int n = 1 + seq::choose(4);
    Log       log;
    std::vector<std::shared_ptr<IEventHandler<Ev>>> hs;
    std::vector<int>                                kind;
    for (int i = 0; i < n; ++i) {
        kind.push_back(seq::choose(5));
        if (kind.back() == 4) hs.push_back(std::make_shared<Plain>(i, log, -1));
        else hs.push_back(std::make_shared<Picky>(i, log, kind.back() & 1, kind.back() & 2));
    }
    AggregateEventHandler<Ev> a(hs);
    std::string               expect;
    for (int step = 0; step < 3; ++step) {
        const int what   = seq::choose(3);
        int       thrown = -1, want = -1;
        for (int i = 0; i < n; ++i) {
            const int k = kind[size_t(i)];
            if (what == 2) { expect += "e" + str(i) + ":" + str(step) + " "; continue; }
            if (k == 4) continue;
            expect += (what ? "stop" : "start") + str(i) + " ";
            if (k & (what ? 2 : 1)) { want = i; break; }
        }
        try {
            if (what == 0) a.onStart();
            else if (what == 1) a.onShutdown();
            else { Ev e; a.onEvent(e, step, false); }
        } catch (int i) { thrown = i; }
        seq::transition();
        SEQ_CHECK(log.s == expect, "life-cycle calls '" + log.s + "' instead of '" + expect + "'");
        SEQ_CHECK(thrown == want, "exception of a handler's life-cycle call not passed on");
    }
}
static void manyHandlers() { // any number of handlers, any sequence number
    static const std::vector<int>     sizes{ 0, 1, 2, 7, 8, 9, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 1000 };
    static const std::vector<int64_t> seqs{ 0, 1, -1, 255, 65536, 2147483647LL, 2147483648LL, 4294967295LL, 4294967297LL, 9223372036854775807LL, -9223372036854775807LL - 1 };
    const int     n   = seq::chooseFrom(sizes);
    const int64_t s   = seq::chooseFrom(seqs);
    const bool    end = seq::choose(2);
    Log           log;
    std::vector<std::shared_ptr<IEventHandler<Ev>>> hs;
    std::string expect;
    for (int i = 0; i < n; ++i) {
        if (i % 3 == 2) hs.push_back(std::make_shared<Aware>(i, log, -7)); else hs.push_back(std::make_shared<Plain>(i, log, -7));
    }
    AggregateEventHandler<Ev> a(hs);
    for (int i = 2; i < n; i += 3) expect += "start" + str(i) + " ";
    for (int i = 0; i < n; ++i) expect += "e" + str(i) + ":" + str(s) + (end ? "!" : "") + " ";
    for (int i = 2; i < n; i += 3) expect += "stop" + str(i) + " ";
    Ev e;
    a.onStart();
    a.onEvent(e, s, end);
    a.onShutdown();
    seq::transition(3);
    SEQ_CHECK(log.s == expect && e.trace.size() == size_t(n), "calls of " + str(n) + " handlers for sequence " + str(s) + " differ");
}
static const bool init = [] {
    seq::add("C24_lifecycle_exceptions", lifecycleExceptions);
    seq::add("C24_many", manyHandlers);
    seq::add("C24_aggregate", [] { aggregate(false); });
    seq::add("C24_nested", [] { aggregate(true); });
    return true;
}();
