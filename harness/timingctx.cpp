// C32: TimingCtx selectors
#include "seq.h"
#include <TimingCtx.hpp>
#include <array>
#include <charconv>
#include <optional>
#include <sstream>

using opencmw::TimingCtx;
using F = std::array<int32_t, 4>; // C S P T
struct Ref {
    bool valid = true, dup = false;
    F    f{ -1, -1, -1, -1 };
};

// independent grammar: "" | ALL | FAIR.SELECTOR.ALL | FAIR.SELECTOR.<tag>(:<tag>)*, tag = [CSPT]=(ALL|int32), any case
static Ref reference(std::string s) {
    Ref r;
    for (auto &c : s) if (c >= 'a' && c <= 'z') c = static_cast<char>(c - 'a' + 'A');
    if (s.empty() || s == "ALL") return r;
    const std::string prefix = "FAIR.SELECTOR.";
    if (s.compare(0, prefix.size(), prefix) != 0) { r.valid = false; return r; }
    s = s.substr(prefix.size());
    if (s == "ALL") return r;
    std::vector<std::string> tags(1);
    for (char c : s) {
        if (c == ':') tags.emplace_back();
        else tags.back() += c;
    }
    std::array<bool, 4> seen{};
    for (auto &t : tags) {
        auto k = t.empty() ? std::string::npos : std::string("CSPT").find(t[0]);
        if (k == std::string::npos || t.size() < 3 || t[1] != '=') { r.valid = false; return r; }
        std::string v = t.substr(2);
        if (seen[k]) r.dup = true;
        seen[k] = true;
        if (v == "ALL") { r.f[k] = -1; continue; }
        size_t i = v[0] == '-' ? 1 : 0;
        if (i == v.size()) { r.valid = false; return r; }
        __int128 n = 0;
        for (; i < v.size(); ++i) {
            if (v[i] < '0' || v[i] > '9') { r.valid = false; return r; }
            if (n < (static_cast<__int128>(1) << 80)) n = n * 10 + (v[i] - '0');
        }
        if (v[0] == '-') n = -n;
        if (n < INT32_MIN || n > INT32_MAX) { r.valid = false; return r; }
        r.f[k] = static_cast<int32_t>(n);
    }
    return r;
}
static std::string show(const F &f) { return std::format("C={} S={} P={} T={}", f[0], f[1], f[2], f[3]); }
static F           fields(const TimingCtx &c) { return { c.cid(), c.sid(), c.pid(), c.gid() }; }
static std::string text(const F &f) {
    std::string s;
    for (size_t i = 0; i < 4; ++i) if (f[i] != -1) s += (s.empty() ? "" : ":") + std::string(1, "CSPT"[i]) + "=" + std::to_string(f[i]);
    return "FAIR.SELECTOR." + (s.empty() ? std::string("ALL") : s);
}

static void checkOne(const std::string &s) {
    auto                     r = reference(s);
    std::optional<TimingCtx> c;
    seq::transition();
    try {
        c.emplace(std::string_view(s));
    } catch (const std::invalid_argument &) {
    }
    if (r.dup) return; // repeated tags: which one counts is not specified
    SEQ_CHECK(c.has_value() == r.valid, "selector " + seq::quote(s) + (r.valid ? " was rejected" : " was accepted as " + show(fields(*c))));
    if (!c) return;
    SEQ_CHECK(fields(*c) == r.f, "selector " + seq::quote(s) + " parsed as " + show(fields(*c)) + " instead of " + show(r.f));
    SEQ_CHECK(c->toString() == text(r.f), "selector " + seq::quote(s) + " is rendered as " + c->toString());
    TimingCtx back(c->toString());
    SEQ_CHECK(back == *c && back.hash() == c->hash(), "text form of " + seq::quote(s) + " does not read back as the same selector");
    std::ostringstream os;
    os << *c;
    SEQ_CHECK(os.str() == text(r.f) && std::format("{}", *c) == text(r.f), "formatted form of " + seq::quote(s) + " is " + os.str());
}

static void allSelectors() {
    static const std::vector<std::string> prefixes = { "FAIR.SELECTOR.", "", "fair.Selector.", "FAIR.SELECTOR", "XFAIR.SELECTOR." };
    int                                   p        = seq::choose(static_cast<int>(prefixes.size()));
    int                                   len      = p == 0 ? (seq::thorough() ? 6 : 5) : (p == 1 ? 4 : 3);
    checkOne(prefixes[static_cast<size_t>(p)] + seq::chooseString("CcSPTX=:10-AL", len));
}
// whole tags in all orders and combinations, including limits of the number range
static void tagCombinations() {
    static const std::vector<std::string> values = { "0", "1", "42", "-1", "-7", "all", "ALL", "2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999999999999", "1x", "1 ", " 1", "0x1", "+1", "1.5", "", "A", "1=", "007", "--1" };
    static const std::vector<std::string> keys   = { "C", "S", "P", "T", "c", "t", "X", "" };
    int                                   n      = 1 + seq::choose(seq::thorough() ? 3 : 2);
    std::string                           s      = "FAIR.SELECTOR.";
    for (int i = 0; i < n; ++i) {
        if (i) s += ":";
        s += seq::chooseFrom(keys);
        s += "=";
        s += seq::chooseFrom(values);
    }
    checkOne(s);
}
// four-tag selectors in every order
static void fourTags() {
    std::vector<int> order;
    std::vector<int> left = { 0, 1, 2, 3 };
    std::string      s    = "FAIR.SELECTOR.";
    F                f{ -1, -1, -1, -1 };
    for (int i = 0; i < 4; ++i) {
        int  j = seq::choose(static_cast<int>(left.size()));
        int  k = left[static_cast<size_t>(j)];
        left.erase(left.begin() + j);
        static const int32_t vals[] = { -1, 0, 1, 2, 10 };
        int                  v      = vals[seq::choose(5)];
        f[static_cast<size_t>(k)]   = v;
        s += (i ? ":" : "") + std::string(1, "CSPT"[k]) + "=" + (v == -1 ? "ALL" : std::to_string(v));
    }
    checkOne(s);
    TimingCtx c(f[0], f[1], f[2], f[3], std::chrono::microseconds(5));
    SEQ_CHECK(fields(c) == f && c == TimingCtx(s, std::chrono::microseconds(5)) && c.bpcts.value() == 5, "context made from numbers differs from the one made from " + s);
    SEQ_CHECK(reference(c.selector.value()).f == f && reference(c.selector.value()).valid, "selector text of a context made from numbers is " + c.selector.value());
}

// relations between two contexts
static void relations() {
    static const int32_t vals[] = { -1, 0, 3 };
    F                    a{}, b{};
    for (auto &x : a) x = vals[seq::choose(3)];
    for (auto &x : b) x = vals[seq::choose(3)];
    for (int64_t ta : { 0, 7, 8 })
        for (int64_t tb : { 0, 7 }) {
            TimingCtx x(a[0], a[1], a[2], a[3], std::chrono::microseconds(ta)), y(b[0], b[1], b[2], b[3], std::chrono::microseconds(tb));
            bool      m = true;
            for (size_t i = 0; i < 4; ++i) m = m && (b[i] == -1 || a[i] == b[i]);
            auto what = [&] { return text(a) + "@" + std::to_string(ta) + " and " + text(b) + "@" + std::to_string(tb); };
            seq::transition(5);
            SEQ_CHECK(x.matches(y) == m, "wildcard match wrong for " + what());
            SEQ_CHECK(x.matchesWithBpcts(y) == (m && (tb == 0 || ta == tb)), "match with time stamp wrong for " + what());
            bool same = a == b && ta == tb;
            SEQ_CHECK((x == y) == same && (y == x) == same && (x != y) == !same, "equality wrong for " + what());
            SEQ_CHECK(!same || (x.hash() == y.hash() && std::hash<TimingCtx>()(x) == std::hash<TimingCtx>()(y)), "equal contexts hash differently: " + what());
            auto c = std::tie(a, ta) <=> std::tie(b, tb);
            SEQ_CHECK((x < y) == (c < 0) && (x > y) == (c > 0) && ((x <=> y) == 0) == same, "ordering wrong for " + what());
        }
}

// histories of selector changes on two contexts, each observed (or not) in between
static void histories() {
    static const std::vector<std::string> sel = { "FAIR.SELECTOR.ALL", "FAIR.SELECTOR.C=1:S=2", "FAIR.SELECTOR.C=7:S=8:P=9:T=4", "fair.selector.p=3", "ALL", "BOGUS", "FAIR.SELECTOR.C=1:Q", "" };
    struct M { std::string s = "FAIR.SELECTOR.ALL"; int64_t t = 0; };
    TimingCtx  c[2];
    M          m[2];
    int        depth = seq::thorough() ? 5 : 4;
    std::string hist;
    auto guarded = [&](bool shouldThrow, const char *what, auto f) {
        bool threw = false;
        try {
            f();
        } catch (const std::invalid_argument &) {
            threw = true;
        }
        SEQ_CHECK(threw == shouldThrow, std::string(what) + (shouldThrow ? " did not reject an invalid selector" : " rejected a valid selector") + " after " + hist);
    };
    auto ok = [](const M &x) { return reference(x.s).valid; };
    for (int d = 0; d < depth; ++d) {
        int op = seq::choose(8);
        int i  = op == 7 ? 0 : seq::choose(2);
        seq::transition();
        auto &x = c[i];
        auto &X = m[i];
        auto &y = c[1 - i];
        auto &Y = m[1 - i];
        switch (op) {
        case 0: {
            X.s        = seq::chooseFrom(sel);
            x.selector = X.s;
            hist += "; set " + std::to_string(i) + " " + X.s;
            break;
        }
        case 1: hist += "; bpcts " + std::to_string(i); x.bpcts = 9; X.t = 9; break;
        case 2:
            hist += "; read " + std::to_string(i);
            guarded(!ok(X), "reading", [&] { auto f = fields(x); SEQ_CHECK(f == reference(X.s).f, "reads " + show(f) + hist); });
            break;
        case 3:
            hist += "; compare " + std::to_string(i);
            guarded(!(ok(X) && ok(Y)), "comparing", [&] {
                bool same = x == y, lt = x < y;
                auto fx = reference(X.s).f, fy = reference(Y.s).f;
                SEQ_CHECK(same == (fx == fy && X.t == Y.t), "equality uses outdated selectors" + hist);
                SEQ_CHECK(lt == (std::tie(fx, X.t) < std::tie(fy, Y.t)), "ordering uses outdated selectors" + hist);
            });
            break;
        case 4:
            hist += "; match " + std::to_string(i);
            guarded(!(ok(X) && ok(Y)), "matching", [&] {
                bool m2 = true;
                auto a = reference(X.s).f, b = reference(Y.s).f;
                for (size_t k = 0; k < 4; ++k) m2 = m2 && (b[k] == -1 || a[k] == b[k]);
                SEQ_CHECK(x.matches(y) == m2, "match uses outdated selectors" + hist);
                SEQ_CHECK(x.matchesWithBpcts(y) == (m2 && (Y.t == 0 || X.t == Y.t)), "match with time stamp uses outdated selectors" + hist);
            });
            break;
        case 5:
            hist += "; text " + std::to_string(i);
            guarded(!ok(X), "text", [&] { SEQ_CHECK(x.toString() == text(reference(X.s).f), "text form is " + x.toString() + hist); });
            guarded(!ok(X), "hash", [&] { auto f = reference(X.s).f; SEQ_CHECK(x.hash() == TimingCtx(f[0], f[1], f[2], f[3], std::chrono::microseconds(X.t)).hash(), "hash is outdated" + hist); });
            break;
        case 6: hist += "; assign to " + std::to_string(i); x = y; X = Y; break;
        case 7: hist += "; swap"; std::swap(c[0], c[1]); std::swap(m[0], m[1]); break;
        }
    }
    for (int i = 0; i < 2; ++i) guarded(!ok(m[i]), "reading", [&] { auto f = fields(c[i]); SEQ_CHECK(f == reference(m[i].s).f && c[i].bpcts.value() == m[i].t, "finally reads " + show(f) + hist); });
    if (ok(m[0]) && ok(m[1])) seq::state(seq::hash(m[0].s + "|" + m[1].s, static_cast<uint64_t>(m[0].t * 16 + m[1].t)));
}

static const int registered = [] {
    seq::add("C32_selectors", allSelectors);
    seq::add("C32_tags", tagCombinations);
    seq::add("C32_four_tags", fourTags);
    seq::add("C32_relations", relations);
    seq::add("C32_histories", histories);
    return 0;
}();
