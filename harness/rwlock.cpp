// C07: reader/writer lock
#include "mc.h"
#include <ReaderWriterLock.hpp>
#include <array>
#include <atomic>
#include <thread>
#include <vector>

using namespace opencmw;
constexpr auto R = ReaderWriterLockType::READ;
constexpr auto W = ReaderWriterLockType::WRITE;

struct World {
    ReaderWriterLock lock;
    int              data = 0;                   // guarded: written only if the thread is the only writer holder of its kind
    int              slot[4] = { 0, 0, 0, 0 };   // one per writer thread (several writers may hold the lock together)
    int              readers = 0, writers = 0;   // bookkeeping, untracked; updated while holding
};
template<ReaderWriterLockType K>
static void enter(World &w) {
    mc::Untracked u;
    (K == R ? w.readers : w.writers)++;
    mc::check(!(w.readers > 0 && w.writers > 0), "a reader and a writer hold the lock at the same time");
}
template<ReaderWriterLockType K>
static void leave(World &w) {
    mc::Untracked u;
    (K == R ? w.readers : w.writers)--;
}
template<ReaderWriterLockType K>
static void inside(World &w, int id) {
    enter<K>(w);
    auto v = w.lock.value();
    mc::check(K == R ? v >= 1 : v <= -1, "holder count " + std::to_string(v) + " while a " + (K == R ? "reader" : "writer") + " holds the lock");
    if constexpr (K == W) {
        w.slot[id]++; // race detector: no reader may look at it now, later readers must see it
    } else {
        volatile int sum = w.slot[0] + w.slot[1] + w.slot[2] + w.slot[3];
        (void) sum;
    }
    leave<K>(w);
}
// op: 0 lock/unlock, 1 tryLock (+unlock), 2 scoped guard
template<ReaderWriterLockType K>
static void action(World &w, int id, int op) {
    switch (op) {
    case 0: {
        auto c = w.lock.lock<K>();
        mc::check(K == R ? c >= 1 : c <= -1, "lock() returned holder count " + std::to_string(c));
        inside<K>(w, id);
        w.lock.unlock<K>();
        break;
    }
    case 1:
        if (w.lock.tryLock<K>()) {
            inside<K>(w, id);
            w.lock.unlock<K>();
        }
        break;
    case 2: {
        auto g = w.lock.scopedGuard<K>();
        inside<K>(w, id);
        break;
    }
    }
}
static void act(World &w, int id, char kind, int op) { kind == 'r' ? action<R>(w, id, op) : action<W>(w, id, op); }

// threads: one string per thread, e.g. "r0w2" = read-lock, then scoped write guard
static void run(const std::vector<std::string> &threads) {
    World                    w;
    std::vector<std::thread> t;
    for (size_t i = 0; i < threads.size(); i++)
        t.emplace_back([&w, s = threads[i], i] { for (size_t k = 0; k + 1 < s.size(); k += 2) act(w, int(i), s[k], s[k + 1] - '0'); });
    for (auto &x : t) x.join();
    mc::check(w.lock.value() == 0, "lock not free after everybody released it: " + std::to_string(w.lock.value()));
    mc::check(w.lock.tryLock<W>(), "try-lock fails on a free lock");
    w.lock.unlock<W>();
    mc::check(w.lock.tryLock<R>(), "try-lock fails on a free lock");
    w.lock.unlock<R>();
    int sum = 0, expected = 0;
    for (int s : w.slot) sum += s;
    for (auto &s : threads) for (size_t k = 0; k + 1 < s.size(); k += 2) if (s[k] == 'w' && s[k + 1] != '1') expected++;
    mc::check(sum >= expected, "a write inside the lock was lost");
}
// writer pairs: publication between writers is not promised (they may overlap), each writer has its own slot

// single thread: every sequence of operations against a counter
static void sequential(int depth) {
    ReaderWriterLock l;
    int64_t          n = 0; // >0 readers, <0 writers
    for (int i = 0; i < depth; i++) {
        switch (mc::choose(6)) {
        case 0: { bool ok = l.tryLock<R>(); mc::check(ok == (n >= 0), "try read-lock"); if (ok) n++; break; }
        case 1: { bool ok = l.tryLock<W>(); mc::check(ok == (n <= 0), "try write-lock"); if (ok) n--; break; }
        case 2: if (n < 0) return; { auto c = l.lock<R>(); n++; mc::check(c == n, "read-lock returns " + std::to_string(c)); } break;
        case 3: if (n > 0) return; { auto c = l.lock<W>(); n--; mc::check(c == n, "write-lock returns " + std::to_string(c)); } break;
        case 4: if (n <= 0) return; { auto c = l.unlock<R>(); n--; mc::check(c == n, "read-unlock returns " + std::to_string(c)); } break;
        case 5: if (n >= 0) return; { auto c = l.unlock<W>(); n++; mc::check(c == n, "write-unlock returns " + std::to_string(c)); } break;
        }
        mc::check(l.value() == n, "holder count " + std::to_string(l.value()) + " after an operation sequence, expected " + std::to_string(n));
        if (n >= 0) { { auto g = l.scopedGuard<R>(); mc::check(l.value() == n + 1, "scoped read guard count"); } mc::check(l.value() == n, "scoped read guard not released"); }
        if (n <= 0) { { auto g = l.scopedGuard<W>(); mc::check(l.value() == n - 1, "scoped write guard count"); } mc::check(l.value() == n, "scoped write guard not released"); }
    }
}
// a writer waiting for a reader (and vice versa) gets the lock after the release, not before
static void handover(bool readerFirst) {
    World             w;
    std::atomic<bool> released{ false };
    if (readerFirst) w.lock.lock<R>(); else w.lock.lock<W>();
    std::thread t([&] {
        if (readerFirst) { w.lock.lock<W>(); mc::check(released.load(), "writer got in although a reader holds the lock"); w.lock.unlock<W>(); }
        else { w.lock.lock<R>(); mc::check(released.load(), "reader got in although a writer holds the lock"); w.lock.unlock<R>(); }
    });
    std::thread u([&] {
        if (readerFirst ? w.lock.tryLock<W>() : w.lock.tryLock<R>()) { mc::check(released.load(), "try-lock got in although the other kind holds the lock"); readerFirst ? w.lock.unlock<W>() : w.lock.unlock<R>(); }
    });
    released = true;
    if (readerFirst) w.lock.unlock<R>(); else w.lock.unlock<W>();
    t.join();
    u.join();
}

static int reg = [] {
    auto q = [](int p) { mc::Options o; o.preemptions = p; o.maxSeconds = 100; return o; };
    auto th = [](int p) { mc::Options o; o.preemptions = p; o.maxSeconds = 500; return o; };
    const std::vector<std::vector<std::string>> sets{
        { "r0", "w0" }, { "w0", "w0" }, { "r0", "r0" }, { "r0r0", "w0w0" }, { "w0r0", "r0w0" }, { "w2", "r2" }, { "w1", "r0" }, { "w0", "r1" }, { "w1w0", "r0r1" },
        { "r0", "r0", "w0" }, { "r0", "w0", "w0" }, { "r2", "w1", "w0" }, { "r1", "r1", "w1" }, { "r1", "w1", "w1" }, { "w0r1", "r0", "w0" }
    };
    for (auto &s : sets) {
        std::string n = "C07_rw";
        for (auto &x : s) n += "_" + x;
        mc::add(n, [s] { run(s); }, q(s.size() == 2 ? 4 : 3), th(s.size() == 2 ? 6 : 4));
    }
    mc::add("C07_sequences", [] { sequential(5); }, q(0), th(0));
    mc::add("C07_handover_r", [] { handover(true); }, q(3), th(5));
    mc::add("C07_handover_w", [] { handover(false); }, q(3), th(5));
    return 0;
}();
