// C11: BasicSetting
#include "mc.h"
#include <array>
#include <BasicSetting.hpp>
#include <memory>
#include <string>
#include <thread>
#include <vector>

using namespace opencmw;
constexpr auto RT  = AccessType::RealTime;
constexpr auto NRT = AccessType::NonRealTime;

// the value v is spread over several words and a heap block
struct Val {
    int                  a, b;
    std::unique_ptr<int> c;
    Val(int v = 0) : a(v), b(v * 7), c(std::make_unique<int>(v)) {}
    Val(const Val &o) : a(o.a), b(o.b), c(std::make_unique<int>(*o.c)) {}
    Val &operator=(const Val &o) { a = o.a; b = o.b; *c = *o.c; return *this; }
    void set(int v) { a = v; b = v * 7; *c = v; }
    int  get() const {
        int x = a, y = b, z = *c;
        mc::check(y == x * 7 && z == x, "torn value: " + std::to_string(x) + "/" + std::to_string(y) + "/" + std::to_string(z));
        return x;
    }
};
// write history: values are written in increasing order; written = latest completed, started = latest begun
struct Hist {
    int  done = 0, begun = 0;
    void begin(int v) { mc::Untracked u; begun = v; }
    void end(int v) { mc::Untracked u; done = std::max(done, v); }
    int  completed() { mc::Untracked u; return done; }
    void seen(int v, int atLeast, int &last, const char *who) {
        mc::Untracked u;
        mc::check(v >= atLeast, std::string(who) + " sees " + std::to_string(v) + " although " + std::to_string(atLeast) + " had been written before the access");
        mc::check(v <= begun, std::string(who) + " sees a value nobody wrote: " + std::to_string(v));
        mc::check(v >= last, std::string(who) + " goes back from " + std::to_string(last) + " to " + std::to_string(v));
        last = v;
    }
};
// how a value is accessed: 'g' guard, 'r' replace, 'a' acquire/release
template<AccessType A, typename S>
static void write(S &s, Hist &h, int v, char how, int &last) {
    h.begin(v);
    if (how == 'r') s.template replace<A>(v);
    else {
        auto  g   = s.template accessGuard<A>();
        Val  &val = g;
        h.seen(val.get(), last, last, "writer");
        val.set(v);
    }
    h.end(v);
    last = v;
}
template<AccessType A, typename S>
static void read(S &s, Hist &h, char how, int &last, const char *who) {
    int min = h.completed();
    if (how == 'a') {
        const Val &v = s.template acquire<A>();
        h.seen(v.get(), min, last, who);
        h.seen(v.get(), min, last, who);
        s.template release<A>();
    } else {
        auto       g = s.template accessGuard<A>();
        const Val &v = g;
        h.seen(v.get(), min, last, who);
        h.seen(v.get(), min, last, who); // stays the same while held
    }
}
struct Rt { // measures that the real-time side never waits
    uint64_t w = mc::waits();
    ~Rt() { if (mc::waits() != w) mc::fail("the real-time side had to wait"); }
};

static void rtWriter(const std::string &writes, const std::vector<std::string> &readers) {
    BasicSetting<Val, MutableOption::RealTimeMutable> s(Val(0));
    Hist                                              h;
    std::vector<std::thread>                          t;
    for (auto &r : readers) t.emplace_back([&, r] { int last = 0; for (char c : r) read<NRT>(s, h, c, last, "non-real-time reader"); });
    int last = 0, v = 0;
    for (char c : writes) {
        Rt rt;
        write<RT>(s, h, ++v, c, last);
    }
    for (auto &x : t) x.join();
    int l = 0;
    read<NRT>(s, h, 'g', l, "final reader");
    mc::check(l == v, "the last write is not the final value");
    auto g = s.accessGuard<RT>();
    mc::check(static_cast<const Val &>(g).get() == v, "the writer does not see its own last write");
}
static void nrtWriters(const std::vector<std::string> &writers, const std::string &rtReads) {
    BasicSetting<Val, MutableOption::NonRealTimeMutable> s(Val(0));
    Hist                                                 h;
    std::vector<std::thread>                             t;
    int                                                  counter = 0; // next value; several writers: increments inside the guard
    for (auto &w : writers) t.emplace_back([&, w] {
        for (char c : w) {
            if (writers.size() == 1) { int last = counter; write<NRT>(s, h, ++counter, c, last); }
            else { // read-modify-write by several threads: no update may be lost
                int v;
                {
                    auto g   = s.accessGuard<NRT>();
                    Val &val = g;
                    v        = val.get() + 1;
                    { mc::Untracked u; mc::check(v == counter + 1, "an update of another non-real-time thread was lost"); counter = v; }
                    h.begin(v);
                    val.set(v);
                }
                h.end(v);
            }
        }
    });
    int last = 0;
    for (char c : rtReads) {
        Rt rt;
        read<RT>(s, h, c, last, "real-time reader");
    }
    for (auto &x : t) x.join();
    int l = 0;
    read<RT>(s, h, 'g', l, "final reader");
    mc::check(l == counter, "the last write is not the final value");
}
// the other side stays inside its access while the real-time side works
static void stalledReader() {
    BasicSetting<Val, MutableOption::RealTimeMutable> s(Val(0));
    bool                                              rtDone = false, inside = false;
    std::thread                                       t([&] {
        auto       g = s.accessGuard<NRT>();
        const Val &v = g;
        int        x = v.get();
        { mc::Untracked u; inside = true; }
        mc::waitUntil([&] { return rtDone; });
        mc::check(v.get() == x, "value changed while a non-real-time reader holds it");
    });
    mc::waitUntil([&] { return inside; });
    for (int i = 1; i <= 3; i++) {
        Rt rt;
        if (i == 2) s.replace<RT>(i);
        else { auto g = s.accessGuard<RT>(); static_cast<Val &>(g).set(i); }
    }
    { mc::Untracked u; rtDone = true; }
    t.join();
    auto g = s.accessGuard<NRT>();
    mc::check(static_cast<const Val &>(g).get() == 3, "write made while a reader was inside got lost");
}
static void stalledWriter() {
    BasicSetting<Val, MutableOption::NonRealTimeMutable> s(Val(0));
    bool                                                 rtDone = false, inside = false;
    std::thread                                          t([&] {
        auto g = s.accessGuard<NRT>();
        static_cast<Val &>(g).set(5);
        { mc::Untracked u; inside = true; }
        mc::waitUntil([&] { return rtDone; });
    });
    mc::waitUntil([&] { return inside; });
    for (int i = 1; i <= 2; i++) {
        Rt   rt;
        auto g = s.accessGuard<RT>();
        mc::check(static_cast<const Val &>(g).get() == 0, "unfinished write visible to the real-time thread");
    }
    { mc::Untracked u; rtDone = true; }
    t.join();
    auto g = s.accessGuard<RT>();
    mc::check(static_cast<const Val &>(g).get() == 5, "finished write not visible");
}
template<MutableOption M>
static void sequential(int depth) { // all single-threaded histories
    constexpr auto                     W = M == MutableOption::RealTimeMutable ? RT : NRT;
    constexpr auto                     R = M == MutableOption::RealTimeMutable ? NRT : RT;
    BasicSetting<Val, M> s(Val(3));
    int                  v = 3;
    for (int i = 0; i < depth; i++) {
        switch (mc::choose(5)) {
        case 0: s.template replace<W>(v = 10 + i); break;
        case 1: { auto g = s.template accessGuard<W>(); Val &x = g; mc::check(x.get() == v, "writer guard shows " + std::to_string(x.get()) + " instead of " + std::to_string(v)); x.set(v = 20 + i); break; }
        case 2: { auto g = s.template accessGuard<W>(); g = Val(v = 30 + i); mc::check(static_cast<Val &>(g).get() == v, "assignment through the guard"); break; }
        case 3: { auto g = s.template accessGuard<R>(); mc::check(g->get() == v, "reader guard shows " + std::to_string(g->get()) + " instead of " + std::to_string(v)); break; }
        case 4: { const Val &x = s.template acquire<R>(); mc::check(x.get() == v, "acquired value " + std::to_string(x.get()) + " instead of " + std::to_string(v)); s.template release<R>(); break; }
        }
    }
}
static int reg = [] {
    auto q  = [](int p) { mc::Options o; o.preemptions = p; o.maxSeconds = 60; return o; };
    auto th = [](int p) { mc::Options o; o.preemptions = p; o.maxSeconds = 900; return o; };
    auto name = [](std::string n, const std::vector<std::string> &v) { for (auto &x : v) n += "_" + x; return n; };
    const std::vector<std::pair<std::string, std::vector<std::string>>> rtw{ { "g", { "g" } }, { "r", { "g" } }, { "gg", { "gg" } }, { "rg", { "ga" } }, { "ggg", { "gg" } }, { "rgr", { "aa" } }, { "gg", { "g", "g" } }, { "rr", { "a", "g" } } };
    for (auto &[w, r] : rtw) mc::add(name("C11_rtwriter_" + w, r), [w, r] { rtWriter(w, r); }, q(r.size() == 1 ? 4 : 3), th(r.size() == 1 ? 6 : 4));
    const std::vector<std::pair<std::vector<std::string>, std::string>> nrtw{ { { "g" }, "g" }, { { "r" }, "a" }, { { "gg" }, "gg" }, { { "rg" }, "ga" }, { { "grg" }, "gg" }, { { "g", "g" }, "g" }, { { "g", "g" }, "gg" }, { { "gg", "g" }, "a" } };
    for (auto &[w, r] : nrtw) mc::add(name("C11_nrtwriter_" + r, w), [w, r] { nrtWriters(w, r); }, q(w.size() == 1 ? 4 : 3), th(w.size() == 1 ? 6 : 4));
    mc::add("C11_stalled_reader", stalledReader, q(3), th(5));
    mc::add("C11_stalled_writer", stalledWriter, q(3), th(5));
    mc::add("C11_sequential_rt", [] { sequential<MutableOption::RealTimeMutable>(5); }, q(0), th(0));
    mc::add("C11_sequential_nrt", [] { sequential<MutableOption::NonRealTimeMutable>(5); }, q(0), th(0));
    return 0;
}();
