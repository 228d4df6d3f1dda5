// C33: Topic, C34: SubscriptionMatcher and filters
#include "seq.h"
#include <cassert>
#include <majordomo/SubscriptionMatcher.hpp>
#include <map>
#include <optional>
#include <set>

using namespace opencmw;
using mdp::Topic;
using Params = std::map<std::string, std::optional<std::string>>;

static Params canon(Params p) { // a parameter with an empty value is one without value
    for (auto &[k, v] : p) if (v && v->empty()) v.reset();
    return p;
}
static std::string show(const Params &p) {
    std::string s = "{";
    for (auto &[k, v] : p) s += (s.size() > 1 ? ", " : "") + seq::quote(k) + (v ? "=" + seq::quote(*v) : "");
    return s + "}";
}
static std::string show(const Topic &t) { return std::string(t.service()) + show(t.params()); }

static bool refValidService(const std::string &s) {
    if (s.size() < 2 || s.front() != '/' || s.back() == '/') return false;
    for (char c : s) if (!(isalnum(static_cast<unsigned char>(c)) || c == '/' || c == '.' || c == '_')) return false;
    return true;
}

// round trips and identity of the textual forms of one topic
static void checkForms(const Topic &t, const std::string &service, const Params &params) {
    SEQ_CHECK(t.service() == service, "service is " + seq::quote(t.service()) + " instead of " + seq::quote(service));
    SEQ_CHECK(canon(t.params()) == canon(params), "parameters of " + show(t) + " should be " + show(params));
    seq::transition(4);
    auto same = [&](const Topic &u, const char *what) {
        SEQ_CHECK(u.service() == t.service() && canon(u.params()) == canon(t.params()), std::string(what) + " of " + show(t) + " reads back as " + show(u));
        SEQ_CHECK(canon(t.params()) != t.params() || (u == t && u.hash() == t.hash() && std::hash<Topic>()(u) == std::hash<Topic>()(t)), std::string(what) + " of " + show(t) + " reads back as an unequal topic or one with a different hash");
    };
    auto mdpText = t.toMdpTopic();
    same(Topic::fromMdpTopic(mdpText), "MDP topic");
    same(Topic::fromMdpTopic(URI<STRICT>(std::string(mdpText.str()))), "MDP topic text");
    auto z = t.toZmqTopic(), zu = t.toZmqTopic(false);
    SEQ_CHECK(z == zu + "#", "delimited ZMQ topic of " + show(t) + " is " + seq::quote(z));
    SEQ_CHECK(z.find('#') == z.size() - 1, "ZMQ topic of " + show(t) + " has the delimiter in the middle: " + seq::quote(z));
    same(Topic::fromZmqTopic(z), "ZMQ topic");
    same(Topic::fromZmqTopic(zu), "undelimited ZMQ topic");
    same(Topic::fromString(zu), "topic text");
    SEQ_CHECK(Topic::fromZmqTopic(z).toZmqTopic() == z || canon(t.params()) != t.params(), "ZMQ topic of " + show(t) + " is not stable");
}

static const std::string &pick(const std::vector<std::string> &v) { return seq::chooseFrom(v); }

static void services() { // every service text over the alphabet
    auto        s = seq::chooseString("/aZ0._-%? ", seq::thorough() ? 6 : 5);
    std::string want = s.substr(0, s.find('?'));
    while (!want.empty() && want.back() == '/') want.pop_back();
    if (want.empty() || want[0] != '/') want = "/" + want;
    std::optional<Topic> t;
    bool                 threw = false;
    seq::transition();
    try {
        t.emplace(Topic::fromString(s));
    } catch (const std::invalid_argument &) { threw = true; } catch (const URISyntaxException &) { threw = true; }
    SEQ_CHECK(mdp::isValidServiceName(want) == refValidService(want), "validity of service name " + seq::quote(want) + " wrong");
    if (!refValidService(want)) {
        SEQ_CHECK(threw, "invalid service " + seq::quote(s) + " accepted as " + show(*t));
        return;
    }
    if (auto q = s.find('?'); q == std::string::npos) {
        SEQ_CHECK(!threw, "valid service " + seq::quote(s) + " rejected");
        checkForms(*t, want, {});
    } else if (t) SEQ_CHECK(t->service() == want, "service of " + seq::quote(s) + " is " + seq::quote(t->service()));
}

static void zmqTexts() { // received topic texts: one trailing '#' is the delimiter, everything else means what it means in a topic text
    auto s    = "/" + seq::chooseString("/a#?=", seq::thorough() ? 7 : 6);
    auto text = s;
    if (text.back() == '#') text.pop_back();
    auto parse = [](auto f) -> std::optional<Topic> {
        try {
            return f();
        } catch (const std::invalid_argument &) { return {}; } catch (const URISyntaxException &) { return {}; }
    };
    seq::transition(2);
    auto a = parse([&] { return Topic::fromZmqTopic(s); }), b = parse([&] { return Topic::fromString(text); });
    SEQ_CHECK(a.has_value() == b.has_value() && (!a || *a == *b), "received topic " + seq::quote(s) + " is " + (a ? show(*a) : "rejected") + " instead of " + (b ? show(*b) : "rejected"));
    auto service = text.substr(0, text.find('?'));
    if (service.find('#') != service.npos) SEQ_CHECK(!a, "received topic " + seq::quote(s) + " with a '#' in its service name is accepted as " + show(*a));
}
static void lengths() { // long services, keys and values with the reserved characters at the end
    static const std::vector<int> ns = [] { std::vector<int> v; for (int i = 1; i <= 40; ++i) v.push_back(i); for (int i : { 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4096, 70000 }) v.push_back(i); return v; }();
    int         n = seq::chooseFrom(ns), where = seq::choose(4);
    std::string big(static_cast<size_t>(n), 'x'), tail = seq::chooseFrom(std::vector<std::string>{ "", "&", "#", "=", "%", "&c=1", "/", "\xfe" });
    std::string service = where == 0 ? "/" + big : "/s";
    Params      p;
    if (where == 1) p[big + tail] = "v";
    if (where == 2) p["k"] = big + tail;
    if (where == 3) for (int i = 0; i < std::min(n, 300); ++i) p["k" + std::to_string(i)] = tail.empty() ? std::optional<std::string>{} : tail;
    auto t = Topic::fromString(service, p);
    checkForms(t, service, p);
}
static const std::vector<std::string> svc = { "/a", "/a/b", "/a.b_c", "/a/", "a", "/A0//b" };
static std::string normal(std::string s) {
    while (!s.empty() && s.back() == '/') s.pop_back();
    return s.empty() || s[0] != '/' ? "/" + s : s;
}
// all parameter maps with keys/values over reserved characters
static void parameters() {
    auto   service = pick(svc);
    Params p;
    int    n = 1 + seq::choose(2);
    for (int i = 0; i < n; ++i) {
        std::string k = seq::chooseString("a&=#%? ", n == 1 ? 2 : 1, 1);
        std::optional<std::string> v;
        if (seq::choose(2)) v = seq::chooseString("b&=#%;/+\xff", n == 1 ? 2 : 1, 0);
        p[k] = v;
    }
    auto t = Topic::fromString(service, p);
    checkForms(t, normal(service), p);
    Topic u = Topic::fromString(service);
    for (auto &[k, v] : p) u.addParam(k, "other"); // a later value replaces the earlier one
    for (auto &[k, v] : p) u.addParam(k, v.value_or(""));
    checkForms(u, normal(service), p);
    // a service text that already contains parameters plus parameters is refused
    bool threw = false;
    try {
        (void) Topic::fromString(service + "?x", p);
    } catch (const std::invalid_argument &) { threw = true; }
    SEQ_CHECK(threw, "parameters given twice are accepted");
}
// texts with a query, any order of parameters
static void queryTexts() {
    static const std::vector<std::string> items = { "a", "a=", "a=1", "b", "b=", "b=%26", "c=x%20y", "d=FAIR.SELECTOR.C%3D1" };
    static const std::vector<std::pair<std::string, std::optional<std::string>>> val = { { "a", {} }, { "a", {} }, { "a", "1" }, { "b", {} }, { "b", {} }, { "b", "&" }, { "c", "x y" }, { "d", "FAIR.SELECTOR.C=1" } };
    int              n = seq::choose(4);
    std::string      q;
    Params           want;
    for (int i = 0; i < n; ++i) {
        int j = seq::choose(static_cast<int>(items.size()));
        if (want.contains(val[static_cast<size_t>(j)].first)) return; // repeated keys are not specified
        q += (i ? "&" : "?") + items[static_cast<size_t>(j)];
        want[val[static_cast<size_t>(j)].first] = val[static_cast<size_t>(j)].second;
    }
    auto s = pick(svc);
    checkForms(Topic::fromString(s + q), normal(s), want);
    auto t = Topic::fromString(s + q);
    // equivalent whatever the order of the parameters and however it was obtained
    auto other = Topic::fromString(s, want);
    SEQ_CHECK(t == other && t.toZmqTopic() == other.toZmqTopic() && t.hash() == other.hash(), "text " + seq::quote(s + q) + " gives " + seq::quote(t.toZmqTopic()) + ", the same parameters as a map give " + seq::quote(other.toZmqTopic()));
    for (auto chk : { 0, 1 }) {
        auto full = std::string(chk ? "mds://host:12345" : "http://h/");
        if (!chk && s[0] == '/') full = "http://h";
        if (chk && s[0] != '/') full += "/";
        auto u = Topic::fromMdpTopic(URI<RELAXED>(full + s + q));
        SEQ_CHECK(u == t, "topic of " + seq::quote(full + s + q) + " is " + show(u) + " instead of " + show(t));
    }
}
// distinct topics never share a ZMQ topic and none is a prefix of another one (prefix matching of ZMQ subscriptions)
static void distinct() {
    struct E { std::string s; Params p; std::string z; };
    static const std::vector<E> all = [] {
        std::vector<E> v;
        std::vector<std::optional<std::string>> vals = { std::nullopt, "1", "12", "&", "=", "#", "1&b", "a=1", "%31" };
        std::vector<std::string>                keys = { "a", "b", "ab", "a=1", "a&b", "a#", "%61", "a?" };
        for (std::string s : { "/s", "/s/t", "/s1", "/t" }) {
            v.push_back({ s, {}, "" });
            for (auto &k : keys) for (auto &x : vals) v.push_back({ s, { { k, x } }, "" });
            for (auto &x : vals) for (auto &y : vals) v.push_back({ s, { { "a", x }, { "b", y } }, "" });
        }
        for (auto &e : v) e.z = Topic::fromString(e.s, e.p).toZmqTopic();
        return v;
    }();
    const auto &x = all[static_cast<size_t>(seq::choose(static_cast<int>(all.size())))];
    auto        tx = Topic::fromString(x.s, x.p);
    for (const auto &y : all) {
        bool eq = x.s == y.s && x.p == y.p;
        seq::transition();
        SEQ_CHECK((x.z == y.z) == eq, "topics " + x.s + show(x.p) + " and " + y.s + show(y.p) + " share the ZMQ topic " + seq::quote(x.z));
        SEQ_CHECK(eq || !y.z.starts_with(x.z), "ZMQ topic of " + x.s + show(x.p) + " is a prefix of that of " + y.s + show(y.p));
        auto ty = Topic::fromString(y.s, y.p);
        SEQ_CHECK((tx == ty) == eq && (!eq || tx.hash() == ty.hash()), "equality of " + show(tx) + " and " + show(ty) + " wrong");
    }
}

// ---- C34 ----------------------------------------------------------------------------------------------------------
struct Len { // a user-defined domain object that rejects some texts
    size_t n;
    explicit Len(std::string_view s) : n(s.size()) { if (s == "bad") throw std::runtime_error("bad"); }
    bool operator==(const Len &) const = default;
};
struct StartsWith { bool operator()(std::string_view n, std::string_view s) const { return n.starts_with(s); } };
struct Never : AbstractFilter { bool operator()(std::string_view, std::string_view) const override { return false; } };

static std::optional<long> refInt(std::string_view s, long lo, long hi) {
    size_t i = !s.empty() && s[0] == '-' ? 1 : 0;
    if (i == s.size()) return {};
    __int128 v = 0;
    for (; i < s.size(); ++i) {
        if (s[i] < '0' || s[i] > '9') return {};
        if (v < (static_cast<__int128>(1) << 80)) v = v * 10 + (s[i] - '0');
    }
    if (s[0] == '-') v = -v;
    if (v < lo || v > hi) return {};
    return static_cast<long>(v);
}
static std::optional<std::array<int, 4>> refCtx(std::string s) {
    std::array<int, 4> f{ -1, -1, -1, -1 };
    for (auto &c : s) c = static_cast<char>(toupper(c));
    if (s.empty() || s == "ALL" || s == "FAIR.SELECTOR.ALL") return f;
    if (!s.starts_with("FAIR.SELECTOR.")) return {};
    s = s.substr(14);
    while (true) {
        auto e = s.substr(0, s.find(':'));
        auto k = e.empty() ? std::string::npos : std::string("CSPT").find(e[0]);
        if (k == std::string::npos || e.size() < 3 || e[1] != '=') return {};
        if (e.substr(2) == "ALL") f[k] = -1;
        else if (auto v = refInt(e.substr(2), INT32_MIN, INT32_MAX)) f[k] = static_cast<int>(*v);
        else return {};
        if (s.find(':') == std::string::npos) return f;
        s = s.substr(s.find(':') + 1);
    }
}
static bool refMatch(const std::string &key, const std::string &notified, const std::string &subscribed) {
    if (key == "n") { auto a = refInt(notified, INT32_MIN, INT32_MAX), b = refInt(subscribed, INT32_MIN, INT32_MAX); return a && b && *a == *b; }
    if (key == "ctx") {
        auto a = refCtx(notified), b = refCtx(subscribed);
        if (!a || !b) return false;
        for (size_t i = 0; i < 4; ++i) if ((*b)[i] != -1 && (*a)[i] != (*b)[i]) return false;
        return true;
    }
    if (key == "type") return notified == subscribed;
    if (key == "len") return notified != "bad" && subscribed != "bad" && notified.size() == subscribed.size();
    if (key == "pre") return notified.starts_with(subscribed);
    if (key == "never") return false;
    return true; // no filter for this key
}
static void addFilters(majordomo::SubscriptionMatcher &m) {
    m.addFilter<NumberFilter<int>>("n");
    m.addFilter<TimingCtxFilter>("ctx");
    m.addFilter<ContentTypeFilter>("type");
    m.addFilter<DomainFilter<Len>>("len");
    m.addFilter<DomainFilter<std::string_view, StartsWith>>("pre");
    m.addFilter<Never>("never");
}
static bool refMatches(const std::string &ns, const Params &np, const std::string &ss, const Params &sp) {
    if (ns != ss) return false;
    static const std::set<std::string> known = { "n", "ctx", "type", "len", "pre", "never" };
    for (auto &[k, v] : sp) {
        if (!known.contains(k)) continue;
        auto it = np.find(k);
        if (it == np.end() || !refMatch(k, it->second.value_or(""), v.value_or(""))) return false;
    }
    return true;
}
static void matchSingle() { // one filter at a time, all value pairs
    static const std::vector<std::pair<std::string, std::vector<std::string>>> vals = {
        { "n", { "", "0", "1", "-1", "42", "042", "42x", "x", "2147483647", "2147483648", "-2147483648", "99999999999999999999", " 1", "1.0" } },
        { "ctx", { "", "ALL", "FAIR.SELECTOR.ALL", "fair.selector.c=2", "FAIR.SELECTOR.C=2", "FAIR.SELECTOR.C=2:P=1", "FAIR.SELECTOR.P=1", "FAIR.SELECTOR.P=1:C=2", "FAIR.SELECTOR.C=ALL:P=1", "bogus", "FAIR.SELECTOR.C=x", "FAIR.SELECTOR.C=99999999999", "FAIR.SELECTOR.C=0", "FAIR.SELECTOR.C=2:S=3:P=1:T=4" } },
        { "type", { "", "text/html", "text/HTML", "text", "*" } },
        { "len", { "", "a", "b", "ab", "bad", "abc" } },
        { "pre", { "", "a", "ab", "b" } },
        { "never", { "", "a" } },
        { "unknown", { "", "a", "b" } },
    };
    majordomo::SubscriptionMatcher m;
    addFilters(m);
    auto &[k, v] = vals[static_cast<size_t>(seq::choose(static_cast<int>(vals.size())))];
    auto opt = [&](const std::vector<std::string> &x) -> std::pair<bool, std::optional<std::string>> {
        int c = seq::choose(static_cast<int>(x.size()) + 2);
        if (c == 0) return { false, {} };
        if (c == 1) return { true, {} };
        return { true, x[static_cast<size_t>(c - 2)] };
    };
    auto   a = opt(v), b = opt(v);
    Params np, sp;
    if (a.first) np[k] = a.second;
    if (b.first) sp[k] = b.second;
    std::string ns = seq::choose(2) ? "/s" : "/s/t", ss = seq::choose(2) ? "/s" : "/s/t";
    bool        want = refMatches(ns, np, ss, sp);
    seq::transition();
    bool got = m(Topic::fromString(ns, np), Topic::fromString(ss, sp));
    SEQ_CHECK(got == want, "notification " + ns + show(np) + " and subscription " + ss + show(sp) + (got ? " match" : " do not match"));
    seq::state(seq::hash(ns + show(np) + ss + show(sp)));
}
static void matchCombined() { // several parameters on both sides
    static const std::vector<std::pair<std::string, std::vector<std::string>>> vals = {
        { "ctx", { "FAIR.SELECTOR.C=2", "ALL" } }, { "n", { "1", "2" } }, { "type", { "a" } }, { "zzz", { "1" } } , { "len", { "bad" } },
    };
    majordomo::SubscriptionMatcher m;
    addFilters(m);
    Params np, sp;
    for (auto &[k, v] : vals)
        for (auto *p : { &np, &sp }) {
            int c = seq::choose(static_cast<int>(v.size()) + 2);
            if (c == 1) (*p)[k] = std::nullopt;
            if (c > 1) (*p)[k] = v[static_cast<size_t>(c - 2)];
        }
    bool want = refMatches("/s", np, "/s", sp);
    seq::transition();
    auto n = Topic::fromString("/s", np), s = Topic::fromString("/s", sp);
    bool got = m(n, s);
    SEQ_CHECK(got == want, "notification " + show(n) + " and subscription " + show(s) + (got ? " match" : " do not match"));
    majordomo::SubscriptionMatcher none; // without filters only the service counts
    SEQ_CHECK(none(n, s), "matcher without filters rejects " + show(s));
}
static void numberFilters() { // all decimal texts
    auto a = seq::chooseString("-019.x", 3), b = seq::chooseString("-019.x", 3);
    auto want = [&](auto lo, auto hi) { auto x = refInt(a, lo, hi), y = refInt(b, lo, hi); return x && y && *x == *y; };
    seq::transition(2);
    SEQ_CHECK(NumberFilter<int>()(a, b) == want(INT32_MIN, INT32_MAX), "integer filter wrong for " + seq::quote(a) + " and " + seq::quote(b));
    SEQ_CHECK(NumberFilter<int8_t>()(a, b) == want(INT8_MIN, INT8_MAX), "8 bit filter wrong for " + seq::quote(a) + " and " + seq::quote(b));
}

static const int registered = [] {
    seq::add("C33_services", services);
    seq::add("C33_zmq_texts", zmqTexts);
    seq::add("C33_lengths", lengths);
    seq::add("C33_parameters", parameters);
    seq::add("C33_query_texts", queryTexts);
    seq::add("C33_distinct", distinct);
    seq::add("C34_single", matchSingle);
    seq::add("C34_combined", matchCombined);
    seq::add("C34_numbers", numberFilters);
    return 0;
}();
