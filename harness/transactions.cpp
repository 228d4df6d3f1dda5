// C20 (histories of transactional settings against a reference model, virtual clock), C21 (concurrent use)
#include "mc.h"
#include <algorithm>
#include <cassert>
#include <iterator>
#include <thread>
#include <Transactions.hpp>
#include <deque>
#include <map>
#include <optional>
using namespace opencmw;
using namespace std::chrono_literals;
namespace {
using Clock = std::chrono::system_clock;
using TP    = Clock::time_point;
TP now() { return Clock::now(); }
constexpr auto TO = 100ms; // time-outs of settings and transactions
constexpr auto TT = 50ms;

// ---- reference model -------------------------------------------------------------------------------------------------
template<typename U>
struct Entry { U value; TP since, access; };
template<typename T>
struct Staged { std::string token; T value; TP access; };
template<typename T, typename U, bool timed>
struct Model {
    std::deque<Entry<U>>   hist;
    std::vector<Staged<T>> staged;
    void                   expire(TP t) {
        if (timed) std::erase_if(staged, [&](const auto &s) { return s.access + TT < t; });
        while (hist.size() > 9) hist.pop_front();
        if (timed) while (hist.size() > 1 && hist.front().access + TO < t) hist.pop_front();
    }
    void push(U v, TP t) {
        hist.back().access = t; // the latest setting was used to derive the new one
        hist.push_back({ std::move(v), t, t });
        expire(t);
    }
    void stage(T v, const std::string &tok, TP t) {
        auto it = std::ranges::find_if(staged, [&](auto &s) { return s.token == tok; });
        if (it != staged.end()) *it = { tok, v, t };
        else staged.push_back({ tok, v, t });
        expire(t);
    }
    std::vector<T> take(const std::string &tok) {
        std::vector<T> r;
        std::erase_if(staged, [&](auto &s) { if (!tok.empty() && s.token != tok) return false; r.push_back(s.value); return true; });
        return r;
    }
    const Entry<U> *at(TP t) const {
        for (auto it = hist.rbegin(); it != hist.rend(); ++it) if (it->since <= t) return &*it;
        return nullptr;
    }
};
template<typename S>
void samePending(const S &s, const auto &model) {
    std::vector<std::string> want;
    for (auto &x : model.staged) want.push_back(x.token);
    mc::check(s.getPendingTransactions() == want, "pending transactions differ from the ones staged and neither committed, retired nor expired");
}

// ---- plain settings --------------------------------------------------------------------------------------------------
template<bool timed>
using Plain = SettingBase<int, int, std::string, 16, std::chrono::milliseconds, timed ? 100 : -1, timed ? 50 : -1>;
template<bool timed>
void comparePlain(const Plain<timed> &s, const Model<int, int, timed> &m, const std::vector<TP> &stamps) {
    mc::check(s.nHistory() == m.hist.size(), "length of the history: " + std::to_string(s.nHistory()) + " instead of " + std::to_string(m.hist.size()));
    samePending(s, m);
    const auto n = static_cast<int64_t>(m.hist.size());
    for (int64_t i = 0; i < n; ++i) {
        const auto node = s.get(-i);
        const auto &e   = m.hist[static_cast<size_t>(n - 1 - i)];
        mc::check(*node.value == e.value, "value " + std::to_string(i) + " steps back is " + std::to_string(*node.value) + " instead of " + std::to_string(e.value));
        mc::check(i == n - 1 || node.validSince == e.since, "validity time stamp differs");
    }
    for (int64_t bad : { int64_t(1), -n, -n - 1, -n - 100 }) {
        try {
            (void) s.get(bad);
            mc::fail("access outside of the history is not refused");
        } catch (const std::out_of_range &) {}
    }
    for (auto t : stamps) {
        const auto *e = m.at(t);
        try {
            const auto node = s.get(t);
            mc::check(e, "a value is given for a time before the history starts");
            mc::check(*node.value == e->value, "value valid at a time stamp is " + std::to_string(*node.value) + " instead of " + std::to_string(e->value));
        } catch (const std::out_of_range &) { mc::check(!e, "no value given for a time stamp within the history"); }
    }
}
template<bool timed>
void plain(int depth) {
    const TP             before = now();
    mc::advanceTime(1'000'000);
    Plain<timed>         s;
    Model<int, int, timed> m;
    m.hist.push_back({ 0, now(), now() });
    mc::advanceTime(1'000'000);
    std::vector<TP> stamps{ before, now() };
    int             v = 0;
    const int       n = 1 + mc::choose(depth);
    for (int k = 0; k < n; ++k) {
        const TP t = now();
        bool     r;
        switch (mc::choose(timed ? 13 : 10)) {
        case 0: r = s.commit(int(++v)).isCommitted; mc::check(r, "commit refused"); m.push(v, t); break;
        case 1: r = s.stage(int(++v), "a").isCommitted; mc::check(!r, "staging commits"); m.stage(v, "a", t); break;
        case 2: r = s.stage(int(++v), "b").isCommitted; mc::check(!r, "staging commits"); m.stage(v, "b", t); break;
        case 3: { auto c = m.take("a"); r = s.commit("a").isCommitted; mc::check(r == !c.empty(), "result of committing a token"); for (int x : c) m.push(x, t); break; }
        case 4: { auto c = m.take("b"); r = s.commit("b").isCommitted; mc::check(r == !c.empty(), "result of committing a token"); for (int x : c) m.push(x, t); break; }
        case 5: { auto c = m.take(""); r = s.commit(std::string()).isCommitted; mc::check(r == !c.empty(), "result of committing all tokens"); for (int x : c) m.push(x, t); break; }
        case 6: { auto c = m.take("a"); r = s.retireStaged("a"); mc::check(r == !c.empty(), "result of retiring a token"); break; }
        case 7: { auto c = m.take(""); r = s.retireStaged(); mc::check(r == !c.empty(), "result of retiring all tokens"); break; }
        case 8: r = s.modifySetting([](const int &x) { return x + 100; }); mc::check(r, "modification refused"); m.push(m.hist.back().value + 100, t); break;
        case 9: { const TP when = t + 5ms; r = s.commit(int(++v), when).isCommitted; m.push(v, t); m.hist.back().since = m.hist.back().access = when; stamps.push_back(when); break; } // time stamp given by the user
        case 10: if (m.hist.size() > 1) { (void) s.get(-1); m.hist[m.hist.size() - 2].access = t; } break;
        case 11: mc::advanceTime(60'000'000); break;
        case 12: s.retireExpired(); m.expire(t); break;
        }
        mc::advanceTime(1'000'000);
        stamps.push_back(now());
        mc::advanceTime(1'000'000);
        mc::check(*s.get().value == m.hist.back().value, "latest value differs"), m.hist.back().access = now();
    }
    comparePlain<timed>(s, m, stamps);
}
void wrap() { // more commits than the ring has places, whatever the mixture
    Plain<false>           s;
    Model<int, int, false> m;
    std::vector<TP>        stamps;
    const int              every = 1 + mc::choose(4); // every n-th commit through a transaction
    const int              batch = 1 + mc::choose(3);
    m.hist.push_back({ 0, now(), now() });
    for (int i = 1; i <= 40; ++i) {
        mc::advanceTime(1'000'000);
        if (i % every == 0) {
            for (int b = 0; b < batch; ++b) { s.stage(i * 10 + b, "t" + std::to_string(b)); m.stage(i * 10 + b, "t" + std::to_string(b), now()); }
            mc::check(s.commit(std::string()), "commit refused");
            for (int x : m.take("")) m.push(x, now());
        } else {
            int v = i * 10;
            mc::check(s.commit(std::move(v)), "commit refused");
            m.push(i * 10, now());
        }
        mc::advanceTime(1'000'000);
        stamps.push_back(now());
        comparePlain<false>(s, m, stamps);
    }
}

// ---- settings multiplexed by timing context --------------------------------------------------------------------------
struct Key { int c, s, p, g; auto operator<=>(const Key &) const = default; };
TimingCtx ctx(const Key &k) { return TimingCtx(k.c, k.s, k.p, k.g); }
struct Val { int value; TP access; };
using Map = std::map<Key, Val>;
template<bool timed>
using Ctx = CtxSetting<int, std::string, 16, std::chrono::milliseconds, timed ? 100 : -1, timed ? 50 : -1>;
const Key KEYS[]     = { { -1, -1, -1, -1 }, { 1, -1, -1, -1 }, { 1, 1, -1, -1 }, { 1, 1, 1, -1 }, { 1, 1, 1, 1 }, { 2, -1, -1, -1 } };
const Key REQUESTS[] = { { -1, -1, -1, -1 }, { 1, 1, 1, 1 }, { 1, 1, 1, 2 }, { 1, 1, 2, 2 }, { 1, 2, 2, 2 }, { 2, 2, 2, 2 }, { 3, 3, 3, 3 }, { 2, -1, -1, -1 }, { 3, -1, -1, -1 } };
bool wild(const Key &k, const Key &pattern) { // k is covered by the pattern
    auto f = [](int a, int b) { return b == -1 || a == b; };
    return f(k.c, pattern.c) && f(k.s, pattern.s) && f(k.p, pattern.p) && f(k.g, pattern.g);
}
std::pair<Key, int> lookup(Map &m, Key r, TP t) {
    for (int step = 0; step < 5; ++step) {
        if (step == 1) r.g = -1;
        if (step == 2) r.p = -1;
        if (step == 3) r.s = -1;
        if (step == 4) r.c = -1;
        if (auto it = m.find(r); it != m.end()) { it->second.access = t; return { r, it->second.value }; }
    }
    return { Key{ -1, -1, -1, -1 }, 0 };
}
template<bool timed>
void contexts(int depth) {
    Ctx<timed>                                 s;
    Model<std::pair<Key, int>, Map, timed>     m;
    m.hist.push_back({ {}, now(), now() });
    int                                                         v = 0;
    std::vector<TP>                                             stamps{ now() };
    std::vector<std::pair<settings::CtxResult<int>, std::pair<Key, int>>> kept; // results stay valid whatever happens afterwards
    auto apply = [&](const std::pair<Key, int> &x, TP t) { Map n = m.hist.back().value; n[x.first] = { x.second, t }; m.push(n, t); };
    const int n = 1 + mc::choose(depth);
    for (int k = 0; k < n; ++k) {
        const TP t = now();
        switch (const int op = mc::choose(timed ? 6 : 5); op) {
        case 0: { const auto &key = KEYS[mc::choose(6)]; int x = ++v; mc::check(s.commit(ctx(key), std::move(x)), "commit refused"); apply({ key, v }, t); break; }
        case 1: { const auto &key = KEYS[1 + mc::choose(2)]; int x = ++v; mc::check(!s.stage(ctx(key), std::move(x), "a"), "staging commits"); m.stage({ key, v }, "a", t); break; }
        case 2: { auto c = m.take("a"); mc::check(s.commit("a").isCommitted == !c.empty(), "result of committing a token"); for (auto &x : c) apply(x, t); break; }
        case 3:
        case 4: {
            const auto &key = KEYS[mc::choose(op == 3 ? 5 : 4)];
            Map         x   = m.hist.back().value;
            const auto  cnt = std::erase_if(x, [&](auto &p) { return op == 3 ? p.first == key : wild(p.first, key); });
            const bool  r   = op == 3 ? s.template retire<true>(ctx(key)) : s.template retire<false>(ctx(key));
            mc::check(r == (cnt > 0), "result of retiring a context");
            m.push(x, t);
            break;
        }
        case 5:
            mc::advanceTime(60'000'000);
            s.retireExpired();
            m.expire(now());
            std::erase_if(m.hist.back().value, [&](auto &p) { return p.second.access + TO < now(); });
            break;
        }
        if (!timed) {
            s.retireExpired(); // nothing expires without time-out
            const auto &r   = REQUESTS[1 + static_cast<size_t>(k) % 6];
            auto        res = s.get(ctx(r));
            kept.emplace_back(res, lookup(m.hist.back().value, r, t));
        }
        mc::advanceTime(1'000'000);
        stamps.push_back(now());
        mc::advanceTime(1'000'000);
    }
    const TP t = now();
    mc::check(s.nHistory() == m.hist.size(), "length of the history: " + std::to_string(s.nHistory()) + " instead of " + std::to_string(m.hist.size()));
    samePending(s, m);
    for (size_t i = 0; i < m.hist.size(); ++i) {
        auto &e = m.hist[m.hist.size() - 1 - i];
        mc::check(s.nCtxHistory(-static_cast<int64_t>(i)) == e.value.size(), "number of contexts " + std::to_string(i) + " steps back: " + std::to_string(s.nCtxHistory(-static_cast<int64_t>(i))) + " instead of " + std::to_string(e.value.size()));
        for (auto &r : REQUESTS) {
            const auto res  = s.get(ctx(r), -static_cast<int64_t>(i));
            if (r.g == -1 && !e.value.contains(r)) { // a request that leaves parts open is answered by one of the settings it covers, if there are any
                const bool covers = std::ranges::any_of(e.value, [&](auto &p) { return p.first.g == -1 && wild(p.first, r); });
                if (covers) {
                    mc::check(std::ranges::any_of(e.value, [&](auto &p) { return wild(p.first, r) && p.second.value == static_cast<const int &>(res.settingValue); }), "value does not belong to a context covered by the request");
                    continue;
                }
            }
            const auto want = lookup(e.value, r, t);
            mc::check(static_cast<const int &>(res.settingValue) == want.second, "value for a context is " + std::to_string(static_cast<const int &>(res.settingValue)) + " instead of " + std::to_string(want.second));
            mc::check(res.timingCtx == ctx(want.first), "the context reported for a value is not the one it was found under");
        }
    }
    for (auto st : stamps) {
        const auto *e = m.at(st);
        if (!e) continue;
        Map        copy = e->value;
        const auto res  = s.get(ctx(KEYS[1]), st);
        auto       w    = lookup(copy, KEYS[1], t);
        if (copy.contains(KEYS[1])) mc::check(static_cast<const int &>(res.settingValue) == w.second, "value of a context at a time stamp");
    }
    for (auto &[res, want] : kept) mc::check(static_cast<const int &>(res.settingValue) == want.second, "a result changed after it was handed out");
}

// ---- C21 ---------------------------------------------------------------------------------------------------------------
using Conc = Plain<false>;
void fill(Conc &s, int n) { for (int i = 1; i <= n; ++i) { int v = i; (void) s.commit(std::move(v)); } }
// updates derived from the latest setting are not lost
void increments(int threads, int each, int prefill) {
    Conc s;
    for (int i = 0; i < prefill; ++i) (void) s.commit(0);
    std::vector<std::thread> th;
    auto inc = [&] { for (int i = 0; i < each; ++i) mc::check(s.modifySetting([](const int &x) { return x + 1; }), "modification refused"); };
    for (int i = 1; i < threads; ++i) th.emplace_back(inc);
    inc();
    for (auto &t : th) t.join();
    mc::check(*s.get().value == threads * each, "lost update: " + std::to_string(*s.get().value) + " instead of " + std::to_string(threads * each));
    const auto n = static_cast<size_t>(std::min(9, 1 + prefill + threads * each));
    mc::check(s.nHistory() == n, "length of the history " + std::to_string(s.nHistory()) + " instead of " + std::to_string(n));
    for (int i = 0; i < threads * each; ++i) mc::check(*s.get(-i).value == threads * each - i, "history is not the order of the updates");
}
void commitContexts() { // commits for different contexts do not undo each other
    Ctx<false> s;
    std::thread a([&] { mc::check(s.commit(ctx(KEYS[1]), 11), "commit refused"); });
    mc::check(s.commit(ctx(KEYS[5]), 22), "commit refused");
    a.join();
    mc::check(s.get(ctx(KEYS[1])).settingValue == 11 && s.get(ctx(KEYS[5])).settingValue == 22, "the commit for one context undoes the one for another");
    mc::check(s.nHistory() == 3, "history misses a commit");
}
// a reader next to a writer at the end of the history: every answer is a committed value, never goes backwards
void readWhileCommitting(int prefill, int commits) {
    Conc s;
    fill(s, prefill);
    std::thread w([&] { for (int i = 1; i <= commits; ++i) { int v = prefill + i; mc::check(s.commit(std::move(v)), "commit refused"); } });
    int         last = prefill;
    for (int k = 0; k < 2; ++k) {
        const int v = *s.get().value;
        mc::check(v >= last && v <= prefill + commits, "latest value went backwards");
        last        = v;
        const auto n = s.nHistory();
        mc::check(n >= 1 && n <= 10 + static_cast<size_t>(commits), "impossible length of the history " + std::to_string(n));
        const int prev = *s.get(-1).value;
        mc::check(prev >= last - 1 && prev < prefill + commits, "previous value is older than the one before the latest value seen");
    }
    w.join();
    mc::check(*s.get().value == prefill + commits, "latest value is not the last one committed");
}
void readByTime(int prefill) {
    Conc            s;
    std::vector<TP> t;
    for (int i = 1; i <= prefill; ++i) {
        mc::advanceTime(1'000'000);
        int v = i;
        t.push_back(s.commit(std::move(v)).timeStamp);
        mc::advanceTime(1'000'000);
    }
    std::thread w([&] { int v = 100; (void) s.commit(std::move(v)); });
    mc::check(*s.get(t.back()).value == prefill, "value at the time of the last commit");
    try {
        const int oldest = prefill - 8; // may leave the history right now
        const int v      = *s.get(t[static_cast<size_t>(oldest - 1)]).value;
        mc::check(v == oldest, "value at the time of an early commit is " + std::to_string(v) + " instead of " + std::to_string(oldest));
    } catch (const std::out_of_range &) {}
    w.join();
}
// staged values: two threads commit everything pending: each is committed exactly once
void commitAll(bool sameToken) {
    Conc s;
    (void) s.stage(5, "x");
    std::thread a([&] { (void) s.stage(6, sameToken ? "x" : "y"); (void) s.commit(std::string()); });
    (void) s.commit("x");
    a.join();
    (void) s.commit(std::string());
    mc::check(s.getPendingTransactions().empty(), "transaction left over");
    int five = 0, six = 0;
    const auto n = static_cast<int64_t>(s.nHistory());
    for (int64_t i = 0; i < n - 1; ++i) { const int v = *s.get(-i).value; five += v == 5; six += v == 6; }
    mc::check(six == 1 && (sameToken ? five <= 1 : five == 1), "a staged value was committed " + std::to_string(five) + "/" + std::to_string(six) + " times");
    mc::check(n == 1 + five + six, "history contains something that was never staged");
}
void stageBoth() {
    Conc s;
    std::thread a([&] { (void) s.stage(1, "a"); });
    (void) s.stage(2, "b");
    (void) s.getPendingTransactions();
    a.join();
    mc::check(s.getPendingTransactions().size() == 2, "staged setting lost");
    mc::check(s.commit("a") && *s.get().value == 1 && s.commit("b") && *s.get().value == 2, "staged value mixed up");
}
void retireVsCommit() { // a staged value is either retired or committed
    Conc s;
    (void) s.stage(7, "a");
    bool        retired = false;
    std::thread a([&] { retired = s.retireStaged("a"); });
    const bool  committed = s.commit("a");
    a.join();
    mc::check(retired != committed, "a staged value is both or neither retired and committed");
    mc::check((*s.get().value == 7) == committed, "result of commit does not tell what happened");
}
// two readers and expiry of a context setting: results stay usable
void readersAndExpiry() {
    Ctx<true> s;
    (void) s.commit(ctx(KEYS[1]), 11);
    (void) s.commit(ctx(KEYS[5]), 22);
    mc::advanceTime(200'000'000);
    std::thread r([&] { const auto x = s.get(ctx(KEYS[1])); const int v = x.settingValue; mc::check(v == 11 || v == 0, "context value " + std::to_string(v)); });
    std::thread w([&] { s.retireExpired(); });
    const auto  x = s.get(ctx(KEYS[1]));
    mc::point();
    const int v = x.settingValue;
    mc::check(v == 11 || v == 0, "context value " + std::to_string(v));
    r.join();
    w.join();
}
void readersOnly() {
    Ctx<false> s;
    (void) s.commit(ctx(KEYS[1]), 11);
    auto        rd = [&] { mc::check(s.get(ctx(KEYS[1])).settingValue == 11, "context value"); };
    std::thread r(rd);
    rd();
    r.join();
}
mc::Options seq() { mc::Options x; x.preemptions = 0; x.maxSeconds = 300; x.maxSteps = 200000; return x; }
mc::Options o(int p) { mc::Options x; x.preemptions = p; x.maxSeconds = 300; return x; }
const int registered = [] {
    mc::add("C20_plain", [] { plain<false>(4); }, seq(), seq());
    mc::add("C20_plain_timed", [] { plain<true>(4); }, seq(), seq());
    mc::add("C20_wrap", [] { wrap(); }, seq(), seq());
    mc::add("C20_contexts", [] { contexts<false>(3); }, seq(), seq());
    mc::add("C20_contexts_timed", [] { contexts<true>(3); }, seq(), seq());
    mc::add("C21_increments", [] { increments(2, 1, 0); }, o(4), o(5));
    mc::add("C21_increments_x2", [] { increments(2, 2, 0); }, o(3), o(4));
    mc::add("C21_increments_3", [] { increments(3, 1, 0); }, o(3), o(3));
    mc::add("C21_increments_full", [] { increments(2, 1, 8); }, o(3), o(4));
    mc::add("C21_commit_contexts", [] { commitContexts(); }, o(3), o(4));
    mc::add("C21_read_while_committing", [] { readWhileCommitting(9, 1); }, o(3), o(4));
    mc::add("C21_read_wrap", [] { readWhileCommitting(17, 3); }, o(3), o(3));
    mc::add("C21_read_by_time", [] { readByTime(9); }, o(3), o(4));
    mc::add("C21_read_by_time_wrap", [] { readByTime(17); }, o(3), o(4));
    mc::add("C21_commit_all", [] { commitAll(false); }, o(3), o(4));
    mc::add("C21_commit_all_same_token", [] { commitAll(true); }, o(3), o(4));
    mc::add("C21_stage_both", [] { stageBoth(); }, o(3), o(4));
    mc::add("C21_retire_vs_commit", [] { retireVsCommit(); }, o(4), o(5));
    mc::add("C21_readers_expiry", [] { readersAndExpiry(); }, o(3), o(4));
    mc::add("C21_readers_only", [] { readersOnly(); }, o(3), o(4));
    return 0;
}();
} // namespace
