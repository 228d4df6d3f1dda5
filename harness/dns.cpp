// C48 the broker's address directory: registration, look-up, expiry, challenges
#include "brokersys.hpp"
#include <sstream>

namespace {
constexpr int64_t DNS = 10000, LIVE = 3; // ms
Settings dnsSettings(bool fast = true) {
    auto s              = testSettings();
    s.heartbeatInterval = std::chrono::milliseconds(100000000);
    s.clientTimeout     = std::chrono::milliseconds(0);
    s.dnsTimeout        = std::chrono::duration_cast<decltype(s.dnsTimeout)>(std::chrono::milliseconds(fast ? DNS : 1000000000));
    s.heartbeatLiveness = LIVE;
    return s;
}
const std::vector<std::string> INTERNAL{ "mmi.dns", "mmi.echo", "mmi.openapi", "mmi.service" };

std::vector<std::pair<std::string, std::vector<std::string>>> parse(const std::string &text) { // [name: a,b],[name: a]
    std::vector<std::pair<std::string, std::vector<std::string>>> r;
    std::size_t pos = 0;
    while (pos < text.size()) {
        if (!r.empty()) {
            SEQ_CHECK(text[pos] == ',', "directory reply is not a list of [name: addresses]: " + text);
            ++pos;
        }
        const auto colon = text.find(": ", pos), end = text.find(']', pos);
        SEQ_CHECK(pos < text.size() && text[pos] == '[' && colon != std::string::npos && end != std::string::npos && colon < end, "directory reply is not a list of [name: addresses]: " + text);
        std::vector<std::string> v;
        std::stringstream        ss(text.substr(colon + 2, end - colon - 2));
        for (std::string a; std::getline(ss, a, ',');) v.push_back(a);
        r.emplace_back(text.substr(pos + 1, colon - pos - 1), v);
        pos = end + 1;
    }
    return r;
}
struct Client {
    RawSock s;
    int     serial = 0;
    Client(void *ctx) : s(ctx, ZMQ_DEALER) {}
    std::string ask(const std::function<void()> &process, const std::string &body, bool *error = nullptr) {
        Raw m{ CLI, C(++serial % 2 ? Get : Set), "/mmi.dns", "q" + std::to_string(serial), "/topic", body, "", "tok" };
        s.send(m);
        process();
        auto got = s.all();
        SEQ_CHECK(got.size() == 1, "the directory sent " + std::to_string(got.size()) + " replies to a query");
        SEQ_CHECK(got[0].proto == CLI && got[0].cmd == C(Final) && got[0].svc == "/mmi.dns" && got[0].id == m.id && got[0].rbac == "tok", "reply of the directory does not belong to the query: " + got[0].str());
        if (error) *error = !got[0].err.empty();
        else SEQ_CHECK(got[0].err.empty(), "the directory reports an error: " + got[0].err);
        return got[0].body;
    }
};
void lower(std::string &s) { for (auto &c : s) c = static_cast<char>(std::tolower(c)); }
// reference: address of the form scheme://authority/path
bool matches(const std::string &address, std::string scheme, std::string path) {
    const auto  c = address.find("://");
    std::string s = address.substr(0, c);
    lower(s);
    lower(scheme);
    if (!scheme.empty() && s != scheme) return false;
    const auto  slash = address.find('/', c + 3);
    std::string p     = slash == std::string::npos ? "" : address.substr(slash);
    while (p.starts_with("/")) p.erase(0, 1);
    while (path.starts_with("/")) path.erase(0, 1);
    return p.starts_with(path);
}
struct Remote { // another broker that registers here
    std::string                     name;
    RawSock                         s;
    int64_t                         expiry = -1; // -1: never registered
    std::set<std::string>           uris;
    Remote(std::string n, void *ctx) : name(std::move(n)), s(ctx, ZMQ_DEALER) { s.connect(INTERNAL_ADDRESS_BROKER.str()); }
    void registerAt(const std::string &uri) { s.send(Raw{ CLI, C(Ready), name, "clientID", uri, "", "", BROKER_RBAC }); }
};
void history(int depth) {
    Execution x;
    {
        System sys(dnsSettings());
        Client cl(sys.ctx());
        cl.s.connect(INTERNAL_ADDRESS_BROKER.str());
        Remote r1("/remote1", sys.ctx()), r2("/remote2", sys.ctx());
        sys.addWorker();
        std::set<std::string> addresses, services(INTERNAL.begin(), INTERNAL.end());
        std::set<std::string> mine;
        const auto            offer = [&] {
            for (auto &a : addresses) {
                mine.insert(a);
                for (auto &s : services) mine.insert(a + "/" + s);
            }
        };
        const auto process = [&] { sys.process(); };
        const auto check   = [&] {
            const auto               t    = nowMs();
            const auto               list = parse(cl.ask(process, ""));
            std::set<std::string>    names;
            std::string              last;
            for (auto &[n, uris] : list) {
                SEQ_CHECK(names.insert(n).second, "broker " + n + " is listed twice");
                SEQ_CHECK(last.empty() || last < n, "the directory is not sorted by broker name");
                last = n;
                std::set<std::string> got(uris.begin(), uris.end());
                SEQ_CHECK(got.size() == uris.size(), "an address of " + n + " is listed twice");
                if (n == "/testbroker") {
                    SEQ_CHECK(got == mine, "the broker lists " + std::to_string(got.size()) + " own addresses instead of " + std::to_string(mine.size()));
                } else {
                    auto *r = n == r1.name ? &r1 : n == r2.name ? &r2 : nullptr;
                    SEQ_CHECK(r && r->expiry >= 0, "unknown broker " + n + " is listed");
                    SEQ_CHECK(got == r->uris, "broker " + n + " is listed with other addresses than it registered");
                    SEQ_CHECK(t <= r->expiry + DNS, "broker " + n + " is still listed " + std::to_string(t - r->expiry) + " ms after its registration ran out");
                }
            }
            if (!mine.empty()) SEQ_CHECK(names.contains("/testbroker"), "the broker does not list itself");
            for (auto *r : { &r1, &r2 }) {
                if (names.contains(r->name)) continue;
                SEQ_CHECK(r->expiry < 0 || t > r->expiry, "broker " + r->name + " is no longer listed although its registration is valid");
                r->expiry = -1;
                r->uris.clear();
            }
            // the same through a query
            const auto              q = cl.ask(process, "mdp:/a, /b/c");
            auto                    a = parse(q);
            std::set<std::string>   wantA, wantB;
            const auto              addAll = [&](const std::set<std::string> &uris) {
                for (auto &u : uris) {
                    if (matches(u, "mdp", "/a")) wantA.insert(u);
                    if (matches(u, "", "/b/c")) wantB.insert(u);
                }
            };
            addAll(mine);
            for (auto *r : { &r1, &r2 })
                if (names.contains(r->name)) addAll(r->uris);
            const auto as = [](std::set<std::string> s) { return s.empty() ? std::vector<std::string>{ "null" } : std::vector<std::string>(s.begin(), s.end()); };
            SEQ_CHECK(a.size() == 2 && a[0].first == "mdp:/a" && a[1].first == "/b/c", "the reply does not answer the two queries in order: " + q);
            SEQ_CHECK(a[0].second == as(wantA) && a[1].second == as(wantB), "look-up returned " + q);
        };
        int64_t lastChallenge = -1; // time of the last round of challenges
        sys.process();              // first round, nobody registered yet
        lastChallenge = nowMs();
        const auto drain = [&] {
            const bool due = nowMs() >= lastChallenge + DNS;
            for (auto *r : { &r1, &r2 }) {
                int n = 0;
                for (auto &m : r->s.all()) {
                    SEQ_CHECK(m.proto == CLI && m.cmd == C(Heartbeat) && m.svc == r->name, "a registered broker was sent " + m.str());
                    ++n;
                }
                SEQ_CHECK(n <= (due ? 1 : 0), "broker " + r->name + " was challenged " + std::to_string(n) + " times");
                if (due && r->expiry >= 0) SEQ_CHECK(n == 1, "broker " + r->name + " was not challenged although it is time");
            }
            if (due) lastChallenge = nowMs();
        };
        for (int i = 0; i < depth; ++i) {
            const int op = seq::choose(10);
            if (op <= 3) {
                auto             &r   = op == 2 ? r2 : r1;
                const std::string uri = op == 0 ? "mdp://h1:1/a" : op == 1 ? "mds://h1:2/b/c" : op == 2 ? "mdp://h2:1/a2" : "/no/scheme";
                r.registerAt(uri);
                sys.process();
                if (op != 3) {
                    r.expiry = nowMs() + DNS * LIVE;
                    r.uris.insert(uri);
                }
            } else if (op == 4) {
                vclock::advanceMs(DNS / 2);
            } else if (op == 5) {
                vclock::advanceMs(DNS);
            } else if (op == 6) {
                vclock::advanceMs(DNS * LIVE - 1);
            } else if (op == 7) {
                if (addresses.contains("mds://own:1")) continue;
                SEQ_CHECK(sys.b.bind(URI<STRICT>("mds://own:1")).value().str() == "mds://own:1", "bind returned another address");
                addresses.insert("mds://own:1");
                offer();
            } else if (op == 8) {
                if (services.contains("a/svc")) continue;
                sys.workers[0]->send(Raw{ WRK, C(Ready), "/a/svc", "", "/", "", "", "" });
                services.insert("a/svc");
                offer();
                sys.process();
            } else {
                if (addresses.contains("https://own:2")) continue;
                sys.b.registerDnsAddress(URI<>("https://own:2"));
                addresses.insert("https://own:2");
                offer();
            }
            sys.process();
            drain();
            sys.workers[0]->all();
            check();
            drain();
            seq::transition();
        }
    }
    x.finish();
}
void queries() {
    Execution x;
    {
        System sys(dnsSettings(false));
        Client cl(sys.ctx());
        cl.s.connect(INTERNAL_ADDRESS_BROKER.str());
        Remote                         r1("/remote1", sys.ctx()), r2("/remote2", sys.ctx());
        const std::vector<std::string> alphabet{ "mdp://h1:1/a", "MDS://h1:2/a", "mdp://h1:1/a/b", "mdp://h1:1", "https://h:8/ab?x=1", "inproc://h/b", "mdp:/a" };
        std::set<std::string>          u1, u2;
        for (int i = 0; i < (seq::thorough() ? 3 : 2); ++i) {
            const auto u = seq::chooseFrom(alphabet);
            (i == 1 ? r2 : r1).registerAt(u);
            (i == 1 ? u2 : u1).insert(u);
        }
        const auto process = [&] { sys.process(); };
        sys.process();
        const std::vector<std::string> schemes{ "", "mdp:", "mds:", "MDP:", "http:" }, paths{ "/", "/a", "/a/", "/a/b", "/ab", "/b", "//a", "/x" }, pad{ "", " ", "\t " };
        const auto                     one = [&](std::string &s, std::string &p) {
            s = seq::chooseFrom(schemes);
            p = seq::chooseFrom(paths);
            if (p == "//a" ) s = ""; // scheme://a would be an authority
            if (p == "//a") p = "/a";
            const auto w = seq::chooseFrom(pad);
            return w + s + p + w;
        };
        std::string s[2], p[2], text = one(s[0], p[0]);
        const bool  two = seq::choose(2) == 1;
        if (two && seq::thorough()) {
            text += "," + one(s[1], p[1]);
        } else if (two) {
            const int k = seq::choose(4);
            s[1] = k == 1 ? "mds:" : "";
            p[1] = k < 2 ? "/a" : k == 2 ? "/" : "/x";
            text += " , " + s[1] + p[1];
        }
        const auto reply = cl.ask(process, text);
        const auto got   = parse(reply);
        SEQ_CHECK(got.size() == (two ? 2U : 1U), "the number of answers differs from the number of queries: " + reply);
        for (std::size_t i = 0; i < got.size(); ++i) {
            std::vector<std::string> want;
            for (auto *u : { &u1, &u2 })
                for (auto &a : *u) {
                    auto norm = a == "mdp:/a" ? std::string("mdp:///a") : a == "https://h:8/ab?x=1" ? std::string("https://h:8/ab") : a;
                    if (matches(norm, s[i].empty() ? "" : s[i].substr(0, s[i].size() - 1), p[i])) want.push_back(a);
                }
            std::sort(want.begin(), want.end());
            if (want.empty()) want.push_back("null");
            SEQ_CHECK(got[i].first == s[i] + p[i], "answer is for '" + got[i].first + "' instead of '" + s[i] + p[i] + "'");
            std::string w;
            for (auto &a : want) w += a + " ";
            SEQ_CHECK(got[i].second == want, "look-up of '" + s[i] + p[i] + "' returned " + reply + " instead of " + w);
        }
        if (!two && seq::choose(2)) { // texts that are no query list everything
            const auto all = parse(cl.ask(process, seq::chooseFrom(std::vector<std::string>{ "", "abc", "?" })));
            std::size_t n = 0;
            for (auto &[b, u] : all) {
                auto &ref = b == "/remote1" ? u1 : u2;
                SEQ_CHECK((b == "/remote1" || b == "/remote2") && std::set<std::string>(u.begin(), u.end()) == ref && u.size() == ref.size(), "directory lists " + b + " wrongly");
                ++n;
            }
            SEQ_CHECK(n == (u1.empty() ? 0U : 1U) + (u2.empty() ? 0U : 1U), "directory lists " + std::to_string(n) + " brokers");
        }
        seq::transition();
    }
    x.finish();
}
// a second broker that uses the first as its directory
void twoBrokers(int depth) {
    Execution x;
    {
        System a(dnsSettings());
        SEQ_CHECK(a.b.bind(URI<STRICT>("mdp://dns:1")).has_value(), "bind failed");
        auto settings       = dnsSettings();
        settings.dnsAddress = "mdp://dns:1";
        TestBroker b("/b", settings);
        RawSock    worker(b.context.zmq_ptr, ZMQ_DEALER);
        worker.connect(INTERNAL_ADDRESS_BROKER.str());
        Client cl(a.ctx());
        cl.s.connect(INTERNAL_ADDRESS_BROKER.str());
        std::set<std::string> addresses, services(INTERNAL.begin(), INTERNAL.end()), want;
        const auto            both = [&] {
            for (int i = 0; i < 2; ++i) {
                b.processMessages();
                a.process();
            }
        };
        both();
        for (int i = 0; i < depth; ++i) {
            const int op = seq::choose(6);
            if (op == 0 || op == 1) {
                const std::string addr = op == 0 ? "mds://b:1" : "mdp://b:2";
                if (addresses.contains(addr)) continue;
                SEQ_CHECK(b.bind(URI<STRICT>(addr)).has_value(), "bind failed");
                addresses.insert(addr);
            } else if (op == 2 || op == 3) {
                const std::string svc = op == 2 ? "s" : "t/u";
                if (services.contains(svc)) continue;
                worker.send(Raw{ WRK, C(Ready), "/" + svc, "", "/", "", "", "" });
                services.insert(svc);
            } else {
                const int64_t step = op == 4 ? DNS / 2 : DNS + 1;
                for (int k = 0; k < (op == 4 ? 1 : 4); ++k) { // longer than the time to live, but both brokers are running
                    vclock::advanceMs(step);
                    both();
                }
            }
            both();
            worker.all();
            for (auto &ad : addresses) {
                want.insert(ad);
                for (auto &s : services) want.insert(ad + "/" + s);
            }
            const auto            reply = cl.ask([&] { a.process(); }, "");
            std::set<std::string> got;
            bool                  self = false;
            for (auto &[n, u] : parse(reply)) {
                if (n == "/b") got.insert(u.begin(), u.end());
                else SEQ_CHECK(n == "/testbroker", "directory lists unknown broker " + n);
                self |= n == "/testbroker";
            }
            SEQ_CHECK(self, "the directory does not list itself");
            SEQ_CHECK(got == want, "the directory knows " + std::to_string(got.size()) + " addresses of the running broker instead of " + std::to_string(want.size()) + ": " + reply);
            seq::transition();
        }
    }
    x.finish();
}
static const bool init = [] {
    seq::add("C48_histories", [] { history(seq::thorough() ? 5 : 4); });
    seq::add("C48_two_brokers", [] { twoBrokers(seq::thorough() ? 5 : 4); });
    seq::add("C48_queries", [] { queries(); });
    return true;
}();
} // namespace
