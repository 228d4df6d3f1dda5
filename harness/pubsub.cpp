// C40: publish/subscribe through the broker: every history of subscriptions and cancellations by SUB sockets, MDP clients
// and the REST server; after each of them every notification reaches exactly the peers whose subscriptions it matches.
#include "brokersys.hpp"
namespace {
struct EqualFilter : AbstractFilter {
    bool operator()(const std::string_view notified, const std::string_view subscribed) const noexcept override { return notified == subscribed; }
};
struct T { // a topic: as clients write it, and as (service, ctx)
    std::string mdp, zmq, service, ctx;
};
const std::vector<T> kTopics{ { "/A", "/A#", "/A", "" }, { "/A?ctx=1", "/A?ctx=1#", "/A", "1" }, { "/A?other=2&ctx=1", "/A?ctx=1&other=2#", "/A", "1" }, { "/A/B", "/A/B#", "/A/B", "" }, { "/mmi.service", "/mmi.service#", "/mmi.service", "" } };
struct Note { std::string topic, service, ctx; };
const std::vector<Note> kNotes{ { "/A?ctx=1", "/A", "1" }, { "/A?ctx=2&foo", "/A", "2" }, { "/A", "/A", "" }, { "/A/B?ctx=1", "/A/B", "1" }, { "/AB", "/AB", "" } };
bool matches(const Note &n, const T &t) { return n.service == t.service && (t.ctx.empty() || t.ctx == n.ctx); }

struct PubSub {
    using RS = opencmw::majordomo::detail::rest::RestServer;
    System                            s;
    RawSock                           workerPub;
    std::vector<std::map<int, int>>   sub{ 2 }; // SUB socket -> topic -> count
    std::vector<std::set<int>>        cl{ 2 };  // MDP client -> topics
    std::set<int>                     rest;
    std::vector<bool>                 closed{ false, false };
    std::set<std::string>             atWorker;
    std::string                       log;
    int                               serial = 0;

    PubSub() : workerPub(s.ctx(), ZMQ_XPUB) {
        RS::state()      = {};
        zmqfake::fdReady = [](int) -> short { return RS::state().inject.empty() ? 0 : ZMQ_POLLIN; };
        s.b.template addFilter<EqualFilter>("ctx");
        opencmw::majordomo::rest::Settings rs;
        SEQ_CHECK(s.b.bindRest(rs), "binding the REST server failed");
        workerPub.connect(INTERNAL_ADDRESS_SUBSCRIBE.str());
        s.addClient();
        s.addClient();
        s.addSub();
        s.addSub();
        s.addWorker();
        s.addWorker();
        s.workers[0]->send(Raw{ WRK, C(Ready), "/A", "", "/", "d", "", "" });
        settle();
        drainWorker();
    }
    ~PubSub() { RS::state() = {}; }
    void settle() {
        s.process();
        s.process();
    }
    void drainWorker() {
        for (auto &w : s.workers)
            for (auto &m : w->all()) SEQ_CHECK(m.cmd == C(Heartbeat), log + ": a worker got " + m.str());
    }
    std::set<int> active() const {
        std::set<int> a = rest;
        for (auto &m : sub)
            for (auto &[t, n] : m) a.insert(t);
        for (auto &m : cl) a.insert(m.begin(), m.end());
        return a;
    }
    void client(int c, bool on, int t) {
        log += " client" + std::to_string(c) + (on ? "+" : "-") + kTopics[static_cast<std::size_t>(t)].mdp;
        s.clients[static_cast<std::size_t>(c)]->send(Raw{ CLI, C(on ? Subscribe : Unsubscribe), "/A", "", kTopics[static_cast<std::size_t>(t)].mdp, "", "", "tok" });
        if (on) cl[static_cast<std::size_t>(c)].insert(t);
        else cl[static_cast<std::size_t>(c)].erase(t);
    }
    void socket(int c, bool on, int t) {
        log += " sub" + std::to_string(c) + (on ? "+" : "-") + kTopics[static_cast<std::size_t>(t)].mdp;
        const auto &z = kTopics[static_cast<std::size_t>(t)].zmq;
        auto       &m = sub[static_cast<std::size_t>(c)];
        if (on) {
            s.subs[static_cast<std::size_t>(c)]->subscribe(z);
            ++m[t];
        } else {
            s.subs[static_cast<std::size_t>(c)]->unsubscribe(z);
            if (m.contains(t) && --m[t] == 0) m.erase(t);
        }
    }
    void http(bool on, int t) {
        log += std::string(" rest") + (on ? "+" : "-") + kTopics[static_cast<std::size_t>(t)].mdp;
        RS::Message m;
        m.command = on ? mdp::Command::Subscribe : mdp::Command::Unsubscribe;
        m.topic   = mdp::Message::URI(kTopics[static_cast<std::size_t>(t)].mdp);
        RS::state().inject.push_back(std::move(m));
        if (on) rest.insert(t);
        else rest.erase(t);
    }
    void closeSub(int c) {
        log += " sub" + std::to_string(c) + " closes";
        s.subs[static_cast<std::size_t>(c)]->close();
        sub[static_cast<std::size_t>(c)].clear();
        closed[static_cast<std::size_t>(c)] = true;
    }
    // what everybody received since the last call: peer -> (topic, message); topics only where the peer sees them
    using Seen = std::map<std::string, std::multiset<std::pair<std::string, Raw>>>;
    Seen seen() {
        Seen r;
        for (std::size_t i = 0; i < 2; ++i) {
            if (!closed[i])
                for (auto &[t, m] : s.subs[i]->allPub()) r["sub" + std::to_string(i)].emplace(t, m);
            for (auto &m : s.clients[i]->all()) r["client" + std::to_string(i)].emplace("", m);
        }
        for (auto &[t, m] : RS::state().notifications) {
            Raw x;
            x.proto = m.protocolName;
            x.cmd   = C(static_cast<Cmd>(m.command));
            x.svc   = m.serviceName;
            x.id    = m.clientRequestID.asString();
            x.topic = m.topic.str();
            x.body  = m.data.asString();
            x.err   = m.error;
            x.rbac  = m.rbac.asString();
            r["rest"].emplace(t, x);
        }
        RS::state().notifications.clear();
        return r;
    }
    static std::string show(const Seen &x) {
        std::string o;
        for (auto &[p, v] : x)
            for (auto &[t, m] : v) o += "\n   " + p + " <- [" + t + "] " + m.str();
        return o.empty() ? " nothing" : o;
    }
    template<class Match>
    Seen expected(const Raw &m, Match matches) {
        Seen r;
        for (std::size_t t = 0; t < kTopics.size(); ++t) {
            if (!matches(kTopics[t])) continue;
            for (std::size_t i = 0; i < 2; ++i) {
                if (sub[i].contains(static_cast<int>(t))) r["sub" + std::to_string(i)].emplace(kTopics[t].zmq, m);
                if (cl[i].contains(static_cast<int>(t))) r["client" + std::to_string(i)].emplace("", m);
            }
            if (rest.contains(static_cast<int>(t))) r["rest"].emplace(kTopics[t].zmq, m);
        }
        return r;
    }
    void verify(bool announced, bool all) {
        settle();
        if (announced) {
            const Raw  m{ CLI, C(Final), "/mmi.service", "/testbroker", "/mmi.service", "", "", "" };
            const auto want = expected(m, [](const T &t) { return t.service == "/mmi.service"; });
            const auto got  = seen();
            SEQ_CHECK(got == want, "after" + log + ": a worker announced itself; received" + show(got) + "\n expected" + show(want));
        } else {
            const auto got = seen();
            SEQ_CHECK(got.empty(), "after" + log + ": received although nothing was published:" + show(got));
        }
        // the workers are told about exactly the topics somebody subscribed to
        std::vector<std::string> f;
        while (zmqfake::recv(workerPub.s, f)) {
            SEQ_CHECK(f.size() == 1 && f[0].size() > 1, "unexpected message on the worker's publisher socket");
            const auto t = f[0].substr(1);
            if (f[0][0] == '\1') SEQ_CHECK(atWorker.insert(t).second, log + ": worker told twice to publish " + t);
            else SEQ_CHECK(atWorker.erase(t), log + ": worker told to stop publishing " + t + " though it never started");
        }
        std::set<std::string> want;
        for (int t : active()) want.insert(kTopics[static_cast<std::size_t>(t)].zmq);
        auto join = [](const std::set<std::string> &v) { std::string o; for (auto &x : v) o += " " + x; return o; };
        SEQ_CHECK(want == atWorker, "after" + log + ": workers publish" + join(atWorker) + ", subscribed are" + join(want));
        for (auto &n : kNotes) {
            if (!all && &n != &kNotes[0]) break;
            const auto k = std::to_string(++serial);
            Raw        m{ WRK, C(Notify), "/A", "nid" + k, n.topic, "body" + k, "", "tok" };
            s.workers[0]->send(m);
            settle();
            Raw e   = m;
            e.proto = CLI;
            e.cmd   = C(Final);
            const auto ex  = expected(e, [&](const T &t) { return matches(n, t); });
            const auto got = seen();
            SEQ_CHECK(got == ex, "after" + log + ", notification " + n.topic + ": received" + show(got) + "\n expected" + show(ex));
            seq::transition();
        }
        drainWorker();
        std::string key;
        for (auto &m : sub) { key += "|"; for (auto &[t, c] : m) key += std::to_string(t) + "x" + std::to_string(c); }
        for (auto &m : cl) { key += "|"; for (int t : m) key += std::to_string(t); }
        for (int t : rest) key += "r" + std::to_string(t);
        seq::state(key + (closed[0] ? "c" : ""));
    }
};
void history(int depth, const std::vector<int> &topics, bool crowd = false) {
    Execution x;
    {
        PubSub    p;
        if (crowd) { // everybody is subscribed already, and the MDP clients may have asked for something before
            for (int c = 0; c < 2; ++c) {
                if (!seq::choose(2)) continue;
                p.s.clients[static_cast<std::size_t>(c)]->send(Raw{ CLI, C(Get), "/mmi.service", "id", "/mmi.service", "", "", "" });
                p.settle();
                SEQ_CHECK(p.s.clients[static_cast<std::size_t>(c)]->all().size() == 1, "request to an internal service not answered once");
                p.log += " client" + std::to_string(c) + " asks";
            }
            for (int c = 0; c < 2; ++c) { p.socket(c, true, topics[0]); p.client(c, true, topics[0]); }
            p.http(true, topics[0]);
            p.verify(false, true);
        }
        const int n = static_cast<int>(topics.size());
        depth       = 1 + seq::choose(depth);
        for (int i = 0; i < depth; ++i) {
            bool      announced = false;
            const int a         = seq::choose(10 * n + 2);
            if (a < 10 * n) {
                const int  t  = topics[static_cast<std::size_t>(a / 10)];
                const bool on = a % 2 == 0;
                switch (a % 10 / 2) {
                case 0: if (p.closed[0]) return; p.socket(0, on, t); break;
                case 1: p.socket(1, on, t); break;
                case 2: p.client(0, on, t); break;
                case 3: p.client(1, on, t); break;
                case 4: p.http(on, t); break;
                }
            } else if (a == 10 * n) {
                if (p.closed[0]) return;
                p.closeSub(0);
            } else {
                p.log += " worker announces /N";
                p.s.workers[1]->send(Raw{ WRK, C(Ready), "/N", "", "/", "d", "", "" });
                announced = true;
            }
            p.verify(announced, i + 1 == depth);
        }
    }
    x.finish();
}
const bool reg = [] {
    seq::add("C40_one_topic", [] { history(seq::thorough() ? 5 : 4, { 1 }); });
    seq::add("C40_crowd", [] { history(seq::thorough() ? 4 : 3, { 1 }, true); });
    seq::add("C40_two_topics", [] { history(seq::thorough() ? 4 : 3, { 0, 1 }); });
    seq::add("C40_many_topics", [] { history(seq::thorough() ? 3 : 2, { 0, 1, 2, 3, 4 }); });
    return true;
}();
} // namespace
