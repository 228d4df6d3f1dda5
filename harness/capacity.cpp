// C19 capacity accounting of the ring buffer (all operation sequences up to a depth, against a counting model)
#include "seq.h"
#include <cassert>
#include <array>
#include <disruptor/RingBuffer.hpp>
#include <disruptor/ProcessingSequenceBarrier.hpp>
#include <algorithm>
#include <deque>
#include <memory>
#include <set>

using namespace opencmw::disruptor;
using std::int64_t;
static std::string str(int64_t v) { return std::to_string(v); }

struct Ev {
    int64_t v = -1;
};
constexpr int SIZE = 4;
template<template<std::size_t, typename> typename CS>
static void ops(int depth, bool multi, bool withPoller = true) {
    using R = RingBuffer<Ev, SIZE, NoWaitStrategy, CS>;
    auto                    r = std::make_shared<R>();
    auto                    poller = r->newPoller();
    std::string             log;
    int64_t                 claimed = -1;                 // highest claimed
    std::set<int64_t>       outstanding;                  // claimed, not published
    std::vector<std::shared_ptr<Sequence>> reg;           // registered consumers
    std::vector<int64_t>                   pos;           // their positions (model)
    int64_t                 polled = -1;
    bool                    pollerGates = false;
    auto contiguous = [&] { return outstanding.empty() ? claimed : *outstanding.begin() - 1; }; // everything up to here is published
    auto least      = [&] {
        int64_t m = claimed;
        for (auto p : pos) m = std::min(m, p);
        if (pollerGates) m = std::min(m, polled);
        return m;
    };
    auto verify = [&] {
        const int64_t free = SIZE - (claimed - least());
        SEQ_CHECK(r->getRemainingCapacity() == free, log + ": getRemainingCapacity() = " + str(r->getRemainingCapacity()) + " instead of " + str(free));
        for (int k = 1; k <= SIZE + 1; ++k)
            SEQ_CHECK(r->hasAvailableCapacity(k) == (free >= k), log + ": hasAvailableCapacity(" + str(k) + ") with " + str(free) + " free slots");
        const auto cur = multi ? claimed : contiguous();
        SEQ_CHECK(r->cursor() == cur, log + ": cursor() = " + str(r->cursor()) + " instead of " + str(cur));
        for (auto s = std::max<int64_t>(0, claimed - SIZE + 1); s <= claimed; ++s)
            SEQ_CHECK(r->isPublished(s) == !outstanding.contains(s), log + ": isPublished(" + str(s) + ")");
        SEQ_CHECK(!r->isPublished(claimed + 1), log + ": isPublished() of an unclaimed sequence");
        if (multi)
            for (auto lo = std::max<int64_t>(0, claimed - SIZE + 1); lo <= contiguous() + 1; ++lo)
                SEQ_CHECK(r->getHighestPublishedSequence(lo, claimed) == std::max(contiguous(), lo - 1) || lo > claimed,
                        log + ": getHighestPublishedSequence(" + str(lo) + ", " + str(claimed) + ") = " + str(r->getHighestPublishedSequence(lo, claimed)) + " instead of " + str(contiguous()));
        int64_t m = cur;
        for (auto p : pos) m = std::min(m, p);
        if (pollerGates) m = std::min(m, polled);
        SEQ_CHECK(r->getMinimumGatingSequence() == m, log + ": getMinimumGatingSequence()");
        SEQ_CHECK(r->getGatingSequences()->size() == pos.size() + pollerGates, log + ": number of gating sequences");
        SEQ_CHECK(r->bufferSize() == SIZE, "bufferSize()");
        std::string st = str(free) + "/" + str(claimed % SIZE) + "/";
        for (auto o : outstanding) st += str(claimed - o) + ",";
        for (auto p : pos) st += "c" + str(claimed - p);
        st += "p" + str(claimed - polled) + (pollerGates ? "g" : "");
        seq::state(st);
    };
    // without consumers nothing keeps a producer from overtaking its own unpublished claims: not explored
    auto lap   = [&](int n) { return !withPoller && !outstanding.empty() && claimed + n - *outstanding.begin() >= SIZE; };
    auto grant = [&](int64_t hi, int n) {
        SEQ_CHECK(hi == claimed + n, log + ": claim of " + str(n) + " ends at " + str(hi) + " instead of " + str(claimed + n));
        for (int64_t s = claimed + 1; s <= hi; ++s) {
            outstanding.insert(s);
            (*r)[s].v = s;
        }
        claimed = hi;
    };
    if (withPoller) {
        r->addGatingSequences({ poller->sequence() });
        pollerGates = true;
    }
    verify();
    for (int step = 0; step < depth; ++step) {
        const int64_t free = SIZE - (claimed - least());
        seq::transition();
        static constexpr int noPoll[] = { 0, 1, 2, 3, 4, 5, 8, 9 };
        switch (const int op = withPoller ? seq::choose(10) : noPoll[seq::choose(8)]; op) {
        case 0:
        case 1:
        case 2: { // tryNext of 1, 3 or 5 slots
            const int n = 2 * op + 1;
            if (lap(n)) return;
            log += " tryNext(" + str(n) + ")";
            bool refused = false;
            try {
                const auto hi = r->tryNext(n);
                SEQ_CHECK(free >= n, log + ": granted although only " + str(free) + " slots are free");
                grant(hi, n);
            } catch (const NoCapacityException &) {
                refused = true;
            }
            if (refused) SEQ_CHECK(free < n, log + ": refused although " + str(free) + " slots are free");
            break;
        }
        case 3: { // next of 2 slots (would block without capacity)
            if (free < 2 || lap(2)) return;
            log += " next(2)";
            grant(r->next(2), 2);
            break;
        }
        case 4: // publish the oldest outstanding claim
            if (outstanding.empty()) return;
            log += " publish(" + str(*outstanding.begin()) + ")";
            r->publish(*outstanding.begin());
            outstanding.erase(outstanding.begin());
            break;
        case 5: // publish the latest outstanding claim: single producer = everything up to it
            if (outstanding.size() < 2) return;
            log += " publish(" + str(*outstanding.rbegin()) + ")";
            r->publish(*outstanding.rbegin());
            if (multi) outstanding.erase(*outstanding.rbegin());
            else outstanding.clear();
            break;
        case 6: { // poll everything
            log += " poll";
            const auto from = polled;
            const auto st   = poller->poll([&](Ev &e, int64_t s, bool end) {
                SEQ_CHECK(s == polled + 1, log + ": polled sequence " + str(s));
                SEQ_CHECK(e.v == s, log + ": event " + str(s) + " holds " + str(e.v));
                SEQ_CHECK(!outstanding.contains(s) && s <= claimed, log + ": event " + str(s) + " polled before it was published");
                polled = s;
                SEQ_CHECK(end == (s == contiguous()), log + ": end-of-batch flag");
            });
            SEQ_CHECK(polled == std::max(from, contiguous()), log + ": poll stopped at " + str(polled) + " instead of " + str(contiguous()));
            if (polled > from) SEQ_CHECK(st == PollState::Processing, log + ": poll state");
            else SEQ_CHECK(st == (multi && claimed > polled ? PollState::Gating : PollState::Idle), log + ": poll state without event");
            break;
        }
        case 7: { // poll one event / throwing consumer
            if (contiguous() <= polled) return;
            const bool thr = seq::choose(2);
            log += thr ? " pollThrow" : " poll1";
            int calls = 0;
            try {
                poller->poll([&](Ev &, int64_t s, bool) {
                    SEQ_CHECK(s == polled + 1 + calls, log + ": polled sequence");
                    ++calls;
                    if (thr && calls == 2) throw 1;
                    return thr;
                });
                SEQ_CHECK(calls == 1, log + ": one event asked for");
                polled += 1;
            } catch (int) {
                SEQ_CHECK(thr, "exception");
                polled += 1; // the event whose handler threw has not been processed
            }
            SEQ_CHECK(poller->sequence()->value() == polled, log + ": consumer position " + str(poller->sequence()->value()) + " instead of " + str(polled));
            break;
        }
        case 8: { // another consumer joins at the cursor / leaves
            if (reg.empty()) {
                if (!multi && !outstanding.empty()) return; // single producer: consumers join between claims only
                log += " join";
                reg.push_back(std::make_shared<Sequence>());
                r->addGatingSequences({ reg.back() });
                pos.push_back(claimed);
                SEQ_CHECK(reg.back()->value() == claimed, log + ": joining consumer starts at " + str(reg.back()->value()));
            } else {
                log += " leave";
                SEQ_CHECK(r->removeGatingSequence(reg.back()), log + ": not found");
                SEQ_CHECK(!r->removeGatingSequence(reg.back()), log + ": removed twice");
                reg.pop_back();
                pos.pop_back();
            }
            break;
        }
        case 9: // the other consumer advances
            if (reg.empty() || pos[0] >= contiguous()) return;
            log += " advance";
            reg[0]->setValue(++pos[0]);
            break;
        }
        verify();
    }
    seq::sample(log);
}
static const bool init = [] {
    seq::add("C19_single", [] { ops<SingleThreadedStrategy>(seq::thorough() ? 9 : 7, false); });
    seq::add("C19_multi", [] { ops<MultiThreadedStrategy>(seq::thorough() ? 9 : 7, true); });
    // no consumer at all, then one that joins and leaves
    seq::add("C19_single_free", [] { ops<SingleThreadedStrategy>(seq::thorough() ? 9 : 6, false, false); });
    seq::add("C19_multi_free", [] { ops<MultiThreadedStrategy>(seq::thorough() ? 9 : 6, true, false); });
    return true;
}();
