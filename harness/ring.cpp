// C12 single-producer ring, C13 multi-producer ring, C18 gating sequences (concurrent part)
#include "mc.h"
#include <array>
#include <cassert>
#include <algorithm>
#include <disruptor/ProcessingSequenceBarrier.hpp>
#include <disruptor/RingBuffer.hpp>
#include <memory>
#include <thread>
#include <vector>

using namespace opencmw::disruptor;
using std::int64_t;

struct Ev {
    int64_t a = -1, b = -1;
    void    set(int64_t v) { a = v; b = v * 3 + 1; }
    int64_t get() const {
        const int64_t x = a, y = b;
        mc::check(y == x * 3 + 1, "torn event: " + std::to_string(x) + "/" + std::to_string(y));
        return x;
    }
};
template<std::size_t N>
using Single = RingBuffer<Ev, N, BusySpinWaitStrategy, SingleThreadedStrategy>;
template<std::size_t N>
using Multi = RingBuffer<Ev, N, BusySpinWaitStrategy, MultiThreadedStrategy>;

// a consumer that polls until it has seen n events; checks order, content, completeness
template<typename Poller>
static void consume(Poller &p, int n, const std::vector<int64_t> *expect, std::vector<int64_t> *seen, bool oneAtATime = false) {
    int64_t next = 0;
    while (next < n) {
        p.poll([&](Ev &e, int64_t seq, bool) {
            mc::check(seq == next, "consumer got sequence " + std::to_string(seq) + " instead of " + std::to_string(next));
            const auto v = e.get();
            if (expect) mc::check(v == (*expect)[static_cast<size_t>(seq)], "event " + std::to_string(seq) + " holds " + std::to_string(v) + " instead of what was published");
            if (seen) seen->push_back(v);
            ++next;
            return !oneAtATime;
        });
        if (next < n) std::this_thread::yield();
    }
}
enum How { NEXT, EVENT, TRY, THROWING };
template<typename R>
static int64_t put(R &r, int64_t v, How how) {
    if (how == NEXT) {
        auto s = r.next();
        r[s].set(v);
        r.publish(s);
        return s;
    }
    int64_t at = -1;
    if (how == EVENT) {
        r.publishEvent([&](Ev &&e, int64_t s) { e.set(v); at = s; });
    } else if (how == THROWING) {
        r.publishEvent([&](Ev &&e, int64_t s) { e.set(v); at = s; throw 1; });
    } else {
        while (!r.tryPublishEvent([&](Ev &&e, int64_t s) { e.set(v); at = s; })) std::this_thread::yield();
    }
    return at;
}
template<typename R>
static void singleProducer(int n, How how, int consumers, bool step) {
    auto                 r = std::make_shared<R>();
    std::vector<int64_t> expect;
    for (int i = 0; i < n; ++i) expect.push_back(100 + i);
    std::vector<std::shared_ptr<std::remove_reference_t<decltype(*r->newPoller())>>> ps;
    for (int c = 0; c < consumers; ++c) {
        ps.push_back(r->newPoller());
        r->addGatingSequences({ ps.back()->sequence() });
    }
    std::vector<std::thread> t;
    for (auto &p : ps) t.emplace_back([&, p] { consume(*p, n, &expect, nullptr, step); });
    for (int i = 0; i < n; ++i) {
        auto s = put(*r, expect[static_cast<size_t>(i)], how);
        mc::check(s == i, "claimed sequence " + std::to_string(s) + " instead of " + std::to_string(i));
    }
    for (auto &x : t) x.join();
    mc::check(r->cursor() == n - 1, "cursor after publishing");
}
// claims two slots in a row, publishes them in the given order only afterwards
template<typename R>
static void outstanding(int rounds) {
    auto                 r = std::make_shared<R>();
    auto                 p = r->newPoller();
    std::vector<int64_t> expect;
    for (int i = 0; i < 2 * rounds; ++i) expect.push_back(100 + i);
    r->addGatingSequences({ p->sequence() });
    std::thread t([&] { consume(*p, 2 * rounds, &expect, nullptr); });
    for (int i = 0; i < rounds; ++i) {
        auto s = r->next(), u = r->next();
        mc::check(s == 2 * i && u == 2 * i + 1, "claims are not consecutive");
        (*r)[s].set(100 + s);
        (*r)[u].set(100 + u);
        r->publish(s);
        r->publish(u);
    }
    t.join();
}
template<typename R>
static void batches(const std::vector<int> &sizes, bool publishEach) {
    auto                 r = std::make_shared<R>();
    auto                 p = r->newPoller();
    std::vector<int64_t> expect;
    int                  n = 0;
    for (int s : sizes) n += s;
    for (int i = 0; i < n; ++i) expect.push_back(100 + i);
    r->addGatingSequences({ p->sequence() });
    std::thread t([&] { consume(*p, n, &expect, nullptr); });
    int64_t     next = 0;
    for (int s : sizes) {
        const auto hi = r->next(s);
        mc::check(hi == next + s - 1, "batch claim ends at " + std::to_string(hi));
        for (; next <= hi; ++next) {
            (*r)[next].set(100 + next);
            if (publishEach) r->publish(next);
        }
        if (!publishEach) r->publish(hi);
    }
    t.join();
}
// consumers with their own pace: B follows A (B's poller is gated on A's sequence)
template<typename R>
static void chain(int n) {
    auto                 r = std::make_shared<R>();
    auto                 a = r->newPoller();
    auto                 b = r->newPoller({ a->sequence() });
    std::vector<int64_t> expect;
    for (int i = 0; i < n; ++i) expect.push_back(100 + i);
    r->addGatingSequences({ b->sequence() });
    std::vector<int> doneA(static_cast<size_t>(n), 0);
    std::thread      ta([&] {
        int64_t next = 0;
        while (next < n) {
            a->poll([&](Ev &e, int64_t seq, bool) { mc::check(e.get() == 100 + seq, "A content"); e.set(200 + seq); ++next; });
            if (next < n) std::this_thread::yield();
        }
    });
    std::thread      tb([&] {
        int64_t next = 0;
        while (next < n) {
            b->poll([&](Ev &e, int64_t seq, bool) { mc::check(e.get() == 200 + seq, "B sees event " + std::to_string(seq) + " before A has processed it"); ++next; });
            if (next < n) std::this_thread::yield();
        }
    });
    for (int i = 0; i < n; ++i) put(*r, 100 + i, NEXT);
    ta.join();
    tb.join();
}
template<typename R>
static void multiProducer(int producers, int each, How how, int consumers, bool oneBatch = false) {
    auto r = std::make_shared<R>();
    std::vector<std::shared_ptr<std::remove_reference_t<decltype(*r->newPoller())>>> ps;
    for (int c = 0; c < consumers; ++c) {
        ps.push_back(r->newPoller());
        r->addGatingSequences({ ps.back()->sequence() });
    }
    std::vector<std::vector<int64_t>> seen(static_cast<size_t>(consumers));
    std::vector<std::vector<int64_t>> claimed(static_cast<size_t>(producers));
    std::vector<std::thread>          t;
    for (int c = 0; c < consumers; ++c) t.emplace_back([&, c] { consume(*ps[static_cast<size_t>(c)], producers * each, nullptr, &seen[static_cast<size_t>(c)]); });
    auto produce = [&](int p) {
        if (oneBatch) {
            const auto hi = r->next(each);
            for (int i = 0; i < each; ++i) {
                const auto s = hi - each + 1 + i;
                (*r)[s].set(p * 100 + i);
                r->publish(s);
                claimed[static_cast<size_t>(p)].push_back(s);
            }
        } else {
            for (int i = 0; i < each; ++i) claimed[static_cast<size_t>(p)].push_back(put(*r, p * 100 + i, how));
        }
    };
    for (int p = 1; p < producers; ++p) t.emplace_back(produce, p);
    produce(0);
    for (auto &x : t) x.join();
    std::vector<int64_t> at(static_cast<size_t>(producers * each), -1); // sequence -> value
    for (int p = 0; p < producers; ++p)
        for (int i = 0; i < each; ++i) {
            auto s = claimed[static_cast<size_t>(p)][static_cast<size_t>(i)];
            mc::check(s >= 0 && s < producers * each, "claimed sequence out of range");
            mc::check(at[static_cast<size_t>(s)] == -1, "two producers were given sequence " + std::to_string(s));
            mc::check(i == 0 || s > claimed[static_cast<size_t>(p)][static_cast<size_t>(i - 1)], "a producer's sequences do not increase");
            at[static_cast<size_t>(s)] = p * 100 + i;
        }
    for (auto &v : seen) mc::check(v == at, "a consumer did not see exactly the published events in sequence order");
    mc::check(r->cursor() == producers * each - 1, "cursor after publishing");
}
// a fast consumer joins/leaves while the producer is running
template<typename R>
static void joinLeave(int n, bool remove) {
    auto r = std::make_shared<R>();
    auto p = r->newPoller();
    r->addGatingSequences({ p->sequence() });
    std::vector<int64_t> expect;
    for (int i = 0; i < n; ++i) expect.push_back(100 + i);
    auto        q = r->newPoller();
    std::thread t([&] { consume(*p, n, &expect, nullptr); });
    std::thread j([&] {
        auto s = std::make_shared<Sequence>();
        r->addGatingSequences({ s });
        // from now on the producer may be at most one buffer ahead of s
        const auto v = s->value();
        const auto c = r->cursor();
        mc::check(v >= -1 && v <= n - 1, "joining sequence out of range");
        mc::check(c - v <= r->bufferSize(), "producer is " + std::to_string(c - v) + " ahead of a registered consumer");
        for (auto k = v; k < n - 1; ++k) s->setValue(k + 1 < r->cursor() ? k + 1 : r->cursor());
        s->setValue(n);
        if (remove) mc::check(r->removeGatingSequence(s), "registered sequence not found");
    });
    for (int i = 0; i < n; ++i) put(*r, 100 + i, NEXT);
    t.join();
    j.join();
    mc::check(r->getGatingSequences()->size() == (remove ? 1u : 2u), "number of gating sequences");
}
// two threads register and unregister at the same time
template<typename R>
static void registerBoth(bool removeFirst) {
    auto r = std::make_shared<R>();
    auto keep = std::make_shared<Sequence>(), a = std::make_shared<Sequence>(), b = std::make_shared<Sequence>();
    r->addGatingSequences({ keep });
    if (removeFirst) r->addGatingSequences({ a });
    std::thread t([&] { if (removeFirst) mc::check(r->removeGatingSequence(a), "a was registered"); else r->addGatingSequences({ a }); });
    r->addGatingSequences({ b });
    t.join();
    int  na = 0, nb = 0, nk = 0;
    for (auto &s : *r->getGatingSequences()) { na += s == a; nb += s == b; nk += s == keep; }
    mc::check(na == (removeFirst ? 0 : 1) && nb == 1 && nk == 1, "a concurrent registration was lost or duplicated");
}

// a consumer that waits on a barrier instead of polling
template<typename R>
static void barrierConsumer(int producers, int each, How how) {
    auto r    = std::make_shared<R>();
    auto mine = std::make_shared<Sequence>();
    auto g    = newBarrier(r, {});
    r->addGatingSequences({ mine });
    const int                         n = producers * each;
    std::vector<int64_t>              seen;
    std::vector<std::vector<int64_t>> claimed(static_cast<size_t>(producers));
    std::vector<std::thread>          t;
    t.emplace_back([&] {
        for (int64_t next = 0; next < n;) {
            const auto got = g->waitFor(next);
            mc::check(got < n, "an event that was never published is reported available");
            for (; next <= got; ++next) seen.push_back((*r)[next].get());
            mine->setValue(next - 1);
        }
    });
    auto produce = [&](int p) { for (int i = 0; i < each; ++i) claimed[static_cast<size_t>(p)].push_back(put(*r, p * 100 + i, how)); };
    for (int p = 1; p < producers; ++p) t.emplace_back(produce, p);
    produce(0);
    for (auto &x : t) x.join();
    std::vector<int64_t> at(static_cast<size_t>(n), -1);
    for (int p = 0; p < producers; ++p)
        for (int i = 0; i < each; ++i) at.at(static_cast<size_t>(claimed[static_cast<size_t>(p)][static_cast<size_t>(i)])) = p * 100 + i;
    mc::check(seen == at, "the waiting consumer did not see exactly the published events in sequence order");
}

// capacity as seen while producers and consumers are moving
template<typename R>
static void observeCapacity(int n, bool observerThread) {
    auto r = std::make_shared<R>();
    auto p = r->newPoller();
    r->addGatingSequences({ p->sequence() });
    std::vector<int64_t> expect;
    for (int i = 0; i < n; ++i) expect.push_back(100 + i);
    auto observe = [&](int64_t claimedAtLeast, int64_t claimedAtMost) {
        const auto before = p->sequence()->value();
        const auto c      = r->getRemainingCapacity();
        const auto after  = p->sequence()->value();
        mc::check(c >= 0 && c <= r->bufferSize(), "remaining capacity " + std::to_string(c) + " of a ring with " + std::to_string(r->bufferSize()) + " slots");
        if (claimedAtLeast >= 0) mc::check(c >= r->bufferSize() - (claimedAtMost - before) && c <= r->bufferSize() - (claimedAtLeast - after), "remaining capacity " + std::to_string(c) + " with consumer between " + std::to_string(before) + " and " + std::to_string(after));
        mc::check(!r->hasAvailableCapacity(static_cast<int32_t>(r->bufferSize()) + 1), "capacity for more than the ring holds");
    };
    std::thread t([&] { consume(*p, n, &expect, nullptr); });
    std::thread o([&] { if (observerThread) { observe(-1, 0); observe(-1, 0); } });
    for (int i = 0; i < n; ++i) {
        put(*r, 100 + i, NEXT);
        if (!observerThread) observe(i, i);
    }
    t.join();
    o.join();
}
static const bool init = [] {
    auto q = [](int p) { mc::Options o; o.preemptions = p; return o; };
    mc::add("C12_spsc2", [] { singleProducer<Single<2>>(4, NEXT, 1, false); }, q(4), q(6));
    mc::add("C12_spsc1", [] { singleProducer<Single<2>>(3, EVENT, 1, true); }, q(4), q(6));
    mc::add("C12_try", [] { singleProducer<Single<2>>(4, TRY, 1, false); }, q(4), q(6));
    mc::add("C12_throwing", [] { singleProducer<Single<2>>(3, THROWING, 1, false); }, q(4), q(6));
    mc::add("C12_two_consumers", [] { singleProducer<Single<2>>(4, NEXT, 2, false); }, q(3), q(4));
    mc::add("C12_two_consumers_try", [] { singleProducer<Single<2>>(3, TRY, 2, false); }, q(3), q(4));
    mc::add("C12_outstanding", [] { outstanding<Single<4>>(4); }, q(3), q(5));
    mc::add("C12_batches", [] { batches<Single<4>>({ 2, 3, 1, 2 }, false); }, q(4), q(6));
    mc::add("C12_batches_each", [] { batches<Single<4>>({ 3, 2, 3 }, true); }, q(4), q(6));
    mc::add("C12_chain", [] { chain<Single<2>>(3); }, q(3), q(4));
    mc::add("C12_barrier", [] { barrierConsumer<Single<2>>(1, 4, NEXT); }, q(4), q(6));
    mc::add("C12_barrier_try", [] { barrierConsumer<Single<2>>(1, 3, TRY); }, q(3), q(5));
    mc::add("C13_barrier", [] { barrierConsumer<Multi<4>>(2, 2, NEXT); }, q(2), q(3));
    mc::add("C13_barrier_event", [] { barrierConsumer<Multi<2>>(2, 1, EVENT); }, q(2), q(4));
    mc::add("C13_spsc", [] { singleProducer<Multi<2>>(4, NEXT, 1, false); }, q(4), q(6));
    mc::add("C13_outstanding", [] { outstanding<Multi<4>>(3); }, q(3), q(5));
    mc::add("C13_batches", [] { batches<Multi<4>>({ 3, 2, 3 }, true); }, q(4), q(6));
    mc::add("C13_two_consumers", [] { singleProducer<Multi<2>>(3, NEXT, 2, false); }, q(3), q(4));
    mc::add("C13_chain", [] { chain<Multi<2>>(3); }, q(3), q(4));
    mc::add("C13_mpsc_next", [] { multiProducer<Multi<2>>(2, 2, NEXT, 1); }, q(3), q(5));
    mc::add("C13_mpsc_event", [] { multiProducer<Multi<4>>(2, 3, EVENT, 1); }, q(3), q(4));
    mc::add("C13_mpsc_try", [] { multiProducer<Multi<2>>(2, 2, TRY, 1); }, q(3), q(4));
    mc::add("C13_mpsc_batch", [] { multiProducer<Multi<4>>(2, 3, NEXT, 1, true); }, q(4), q(5));
    mc::add("C13_mpmc", [] { multiProducer<Multi<2>>(2, 2, NEXT, 2); }, q(2), q(3));
    mc::add("C13_three_producers", [] { multiProducer<Multi<2>>(3, 1, NEXT, 1); }, q(3), q(4));
    mc::add("C19_observer_multi", [] { observeCapacity<Multi<2>>(3, true); }, q(3), q(4));
    mc::add("C19_producer_multi", [] { observeCapacity<Multi<2>>(3, false); }, q(3), q(5));
    mc::add("C19_producer_single", [] { observeCapacity<Single<2>>(3, false); }, q(3), q(5));
    mc::add("C18_join_single", [] { joinLeave<Single<2>>(3, false); }, q(3), q(4));
    mc::add("C18_join_multi", [] { joinLeave<Multi<2>>(3, false); }, q(3), q(4));
    mc::add("C18_join_leave_multi", [] { joinLeave<Multi<2>>(3, true); }, q(3), q(4));
    mc::add("C18_register_both", [] { registerBoth<Multi<2>>(false); }, q(4), q(6));
    mc::add("C18_register_remove", [] { registerBoth<Multi<2>>(true); }, q(4), q(6));
    return true;
}();
