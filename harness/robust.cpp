// C42: no sequence of unusual or malformed messages from any peer stops the broker or its services for the others.
#include "brokersys.hpp"
namespace {
using Frames = std::vector<std::string>;
Settings shortDns();
struct Probe { // well-behaved peers that must keep being served
    System  s;
    RawSock workerPub;
    bool    probed = false;
    Probe() : s(shortDns()), workerPub(s.ctx(), ZMQ_XPUB) {
        workerPub.connect(INTERNAL_ADDRESS_SUBSCRIBE.str());
        for (int i = 0; i < 2; ++i) s.addClient(); // 0: misbehaves, 1: well-behaved
        for (int i = 0; i < 2; ++i) s.addWorker();
        s.addSub();
        s.addSub();
        s.workers[1]->send(Raw{ WRK, C(Ready), "/good", "", "/", "desc", "", "" });
        s.subs[1]->subscribe("/good#");
        s.process();
    }
    void health(const std::string &log) {
        // request/reply
        auto &w = *s.workers[1];
        auto &c = *s.clients[1];
        for (auto &m : w.all()) { // answer whatever reached the good worker: it stays available
            if (m.cmd == C(Heartbeat)) continue;
            SEQ_CHECK(m.proto == WRK && (m.cmd == C(Get) || m.cmd == C(Set)), log + ": the worker was sent " + m.str());
            w.send(Raw{ WRK, C(Final), m.svc, m.id, m.topic, "", "", "" });
        }
        s.process();
        for (auto &m : w.all()) SEQ_CHECK(m.cmd == C(Heartbeat) || m.cmd == C(Get) || m.cmd == C(Set), log + ": the worker was sent " + m.str());
        SEQ_CHECK(c.all().empty(), log + ": the other client received something");
        c.send(Raw{ CLI, C(Get), "/good", "probe", "/good?x=1", "b", "", "tok" });
        s.process();
        std::vector<Raw> got;
        for (auto &m : w.all())
            if (m.cmd != C(Heartbeat)) got.push_back(m);
        SEQ_CHECK(got.size() == 1 && got[0].id == "probe", log + ": the request of another client does not reach its worker");
        w.send(Raw{ WRK, C(Final), got[0].svc, "probe", "/good?x=1", "answer", "", "" });
        s.process();
        auto r = c.all();
        SEQ_CHECK(r.size() == 1 && r[0] == (Raw{ CLI, C(Final), "/good", "probe", "/good?x=1", "answer", "", "" }), log + ": the reply does not reach the other client");
        c.send(Raw{ CLI, C(Get), "/mmi.service", "probe2", "/", "/good", "", "" });
        s.process();
        r = c.all();
        SEQ_CHECK(r.size() == 1 && r[0].body == "200", log + ": /mmi.service does not answer");
        // publish/subscribe
        while (!s.subs[1]->allPub().empty()) {}
        w.send(Raw{ WRK, C(Notify), "/good", "", "/good", "news", "", "" });
        s.process();
        const auto p = s.subs[1]->allPub();
        SEQ_CHECK(p.size() == 1 && p[0].second.body == "news", log + ": a notification is received " + std::to_string(p.size()) + " times");
        seq::transition();
    }
    void drainBad() {
        std::vector<std::string> f;
        for (auto *x : { s.clients[0].get(), s.workers[0].get() })
            while (zmqfake::recv(x->s, f)) {}
    }
};
std::string show(const Frames &f) {
    std::string o = "[";
    for (auto &x : f) o += seq::quote(x) + " ";
    return o + "]";
}
const std::vector<std::string> kServices{ "/bad", "", "bad", "/mmi.dns", "/mmi.service", "/mmi.openapi", "/mmi.echo", "/good", "rest", "/" };
const std::vector<std::string> kTopicsX{ "/", "/good", "/good?x=1", "mdp://h:1/x", "/bad?ctx", "/%zz", "//", "/a b", "mds://[", "/bad?a=b=c&&" };
const std::vector<std::string> kBodies{ "", "a,b:c/d", "/good", ":::", "http://[", "mdp://h:x/", ",", " / ", std::string("\0:", 2), "%%/", "//", "a://b:99999999999999999999/", "?:#" };
const std::vector<std::string> kRbac{ "", "RBAC=", "RBAC=ADMIN,x", "RBAC=,", "x" };

// one unusual message; where: 0 client socket, 1 worker socket, 2 worker's publisher socket
Frames message(bool wide, std::string proto) {
    Frames f{ proto, "", "/bad", "id", "/", "", "", "" };
    f[1] = std::string(1, static_cast<char>(seq::choose(12)));
    if (f[1][0] == 11) f[1] = "\xff";
    f[2] = seq::chooseFrom(wide || seq::thorough() ? kServices : std::vector<std::string>{ "/bad", "", "/mmi.dns", "/good" });
    if (wide) {
        switch (seq::choose(3)) {
        case 0: f[4] = seq::chooseFrom(kTopicsX); break;
        case 1: f[5] = seq::chooseFrom(kBodies); break;
        case 2: f[7] = seq::chooseFrom(kRbac); break;
        }
    } else {
        const bool k = seq::choose(2);
        f[4]         = k ? "/good" : "/";
        f[5]         = k ? "mdp://h:1/good" : "";
    }
    return f;
}
Settings shortDns() {
    auto s       = testSettings();
    s.dnsTimeout = std::chrono::seconds(2);
    return s;
}
void odd(int n, bool wide) {
    Execution x;
    {
        Probe       p;
        std::string log = "after";
        for (int i = 0; i < n; ++i) {
            const int  who = seq::choose(wide ? 3 : seq::thorough() ? 2 : 1);
            Frames     f;
            if (who < 2) {
                const bool client = seq::choose(2) == 0;
                f                 = message(wide, client ? CLI : WRK);
                if (!client && f[1] == C(Ready) && f[2] == "/good") return; // joins the service rightfully
                if (client && f[2] == "/good" && f[1] != C(Subscribe) && f[1] != C(Unsubscribe) && i > 0) return; // bounds the number of requests in the queue
            } else {
                f    = Frames{ seq::choose(2) ? CLI : WRK, C(Notify), "/bad", "id", seq::chooseFrom(kTopicsX), "", "", "" };
                if (f[4].starts_with("/good")) return; // a notification like any other
            }
            if (f[0] == WRK && f[1] == C(Notify) && f[4].starts_with("/good")) return;
            log += (who == 0 ? " client" : who == 1 ? " worker" : " publisher") + show(f);
            if (who == 0) p.s.clients[0]->sendFrames(f);
            else if (who == 1) p.s.workers[0]->sendFrames(f);
            else {
                auto g = f;
                g.insert(g.begin(), "/good#");
                p.workerPub.sendFrames(g);
            }
            p.s.process();
            p.drainBad();
            if (i == 0 && seq::choose(2)) { // time passes
                vclock::advanceMs(2500);
                log += " +2500ms";
                p.s.workers[1]->send(Raw{ WRK, C(Heartbeat), "/good", "", "/", "", "", "" });
                p.s.process();
                p.drainBad();
            }
        }
        p.health(log);
    }
    x.finish();
}
const bool reg = [] {
    seq::add("C42_one_message", [] { odd(1, true); });
    seq::add("C42_two_messages", [] { odd(2, false); });
    seq::add("C42_frames", [] {
        Execution x;
        {
            Probe       p;
            std::string log = "after";
            for (int i = 0, n = seq::thorough() ? 3 : 2; i < n; ++i) {
                const int k = seq::choose(4);
                if (k < 3) {
                    auto     &q = k == 0 ? *p.s.clients[0] : k == 1 ? *p.s.workers[0] : p.workerPub;
                    const int m = seq::choose(11);
                    Frames    f;
                    for (int j = 0; j <= m; ++j) f.push_back(j == 0 ? (seq::choose(2) ? CLI : WRK) : j == 1 ? (seq::choose(2) ? "" : C(Get)) : "");
                    if (k == 2) f[0] = "/good#";
                    log += " frames" + show(f);
                    q.sendFrames(f);
                } else {
                    const auto t = seq::chooseFrom(std::vector<std::string>{ "", "#", "/", "x", "/good?x=1#", "?", "/bad?%zz#", "//#", std::string("\0#", 2), "/bad?a=&&b#", "mdp://h/x#", "/a b#" });
                    const bool on = seq::choose(2) == 0;
                    log += std::string(on ? " +" : " -") + seq::quote(t);
                    if (on) p.s.subs[0]->subscribe(t);
                    else p.s.subs[0]->unsubscribe(t);
                }
                p.s.process();
                p.drainBad();
            }
            p.health(log);
        }
        x.finish();
    });
    return true;
}();
} // namespace
