// C43: a Majordomo worker (BasicWorker::run on this thread) against a raw broker that does everything in every order; the
// environment acts whenever the worker waits in zmq_poll.
#include "mdp.hpp"
#include "restmock.hpp"
#include <majordomo/Worker.hpp>
#include <memory>
using namespace opencmw;
using namespace opencmw::majordomo;
namespace {
constexpr int64_t HB = 1000;
constexpr int     LIVENESS = 3;
int64_t nowMs() { return vclock::now / 1000000; }
Settings testSettings() {
    Settings s;
    s.heartbeatInterval        = std::chrono::milliseconds(HB);
    s.heartbeatLiveness        = LIVENESS;
    s.workerReconnectInterval  = std::chrono::milliseconds(100);
    return s;
}
struct Reader : Role<"READER", Permission::RO> {};
struct Writer : Role<"WRITER", Permission::WO> {};
struct Both : Role<"BOTH", Permission::RW> {};
struct EqualFilter : AbstractFilter {
    bool operator()(const std::string_view notified, const std::string_view subscribed) const noexcept override { return notified == subscribed; }
};
using Svc = BasicWorker<"/svc", description<"what it does">, rbac<Reader, Writer, Both, NONE>>;

struct RawBroker {
    RawSock router, sub;
    explicit RawBroker(void *ctx) : router(ctx, ZMQ_ROUTER), sub(ctx, ZMQ_SUB) {
        zmq_bind(router.s, INTERNAL_ADDRESS_BROKER.str().c_str());
        zmq_bind(sub.s, INTERNAL_ADDRESS_SUBSCRIBE.str().c_str());
    }
    void send(const std::string &rid, const Raw &m) {
        auto f = m.frames();
        f.insert(f.begin(), rid);
        router.sendFrames(f);
    }
    std::vector<std::pair<std::string, Raw>> all() { return router.allPub(); } // same shape: source id + message
};
const Raw kReady{ WRK, C(Ready), "/svc", "", "/", "what it does", "", "RBAC=NONE," };
const Raw kHeartbeat{ WRK, C(Heartbeat), "/svc", "", "/", "", "", "RBAC=NONE," };
const Raw kBye{ WRK, C(Disconnect), "/svc", "", "/", "", "", "RBAC=NONE," };

void history(int depth) {
    Execution x;
    {
        zmq::Context ctx;
        RawBroker    broker(ctx.zmq_ptr);
        std::string  log;
        std::vector<std::string> handled;
        Svc worker(INPROC_BROKER, [&](RequestContext &c) {
            handled.emplace_back(c.request.data.asString());
            if (handled.back().starts_with("throw")) throw std::runtime_error("reason");
            if (handled.back().starts_with("int")) throw 42;
            const auto r = "done " + handled.back();
            c.reply.data = IoBuffer(r.data(), r.size());
        }, ctx, testSettings());
        worker.template addFilter<EqualFilter>("ctx");
        // what the environment knows
        std::string                   rid; // current connection of the worker
        int64_t                       lastSent = 0, lastHeard = 0;
        bool                          ending = false;
        int                           step = 0, serial = 0;
        std::set<std::string>         topics;   // subscriptions of the broker
        struct Expect { Raw m; bool anyError = false; };
        std::vector<Expect>           expect;   // what the worker has to send now, in this order, besides heartbeats
        std::vector<std::string>      expectHandled;
        bool                          expectReconnect = true;
        auto collect = [&](bool ended) {
            std::size_t n = 0;
            for (auto &[from, m] : broker.all()) {
                if (m == kHeartbeat) {
                    SEQ_CHECK(from == rid, log + ": heartbeat from an abandoned connection");
                    SEQ_CHECK(nowMs() - lastSent >= HB, log + ": heartbeat " + std::to_string(nowMs() - lastSent) + " ms after the last one");
                    lastSent = nowMs();
                } else if (m == kReady) {
                    SEQ_CHECK(from != rid, log + ": announces itself twice on one connection");
                    if (!expectReconnect) SEQ_CHECK(nowMs() - lastHeard > (LIVENESS - 1) * HB, log + ": reconnects though the broker was heard " + std::to_string(nowMs() - lastHeard) + " ms ago");
                    expectReconnect = false;
                    rid             = from;
                    lastSent = lastHeard = nowMs();
                } else if (ended && m == kBye) {
                    SEQ_CHECK(from == rid, log + ": says good-bye on an abandoned connection");
                    rid.clear();
                } else {
                    SEQ_CHECK(from == rid, log + ": replies on another connection");
                    SEQ_CHECK(n < expect.size(), log + ": worker sent " + m.str());
                    auto w = expect[n].m, g = m;
                    if (expect[n].anyError) {
                        SEQ_CHECK(!g.err.empty() && g.body.empty(), log + ": failed request answered with " + m.str());
                        g.err = w.err;
                    }
                    SEQ_CHECK(g == w, log + ": worker sent " + m.str() + " instead of " + w.str());
                    ++n;
                }
            }
            SEQ_CHECK(n == expect.size(), log + ": worker did not send " + expect[std::min(n, expect.size() - 1)].m.str());
            SEQ_CHECK(!expectReconnect, log + ": worker did not (re)connect");
            SEQ_CHECK(handled == expectHandled, log + ": the handler ran " + std::to_string(handled.size()) + " times, not " + std::to_string(expectHandled.size()));
            expect.clear();
        };
        auto request = [&](Cmd cmd, const std::string &role, const std::string &what) {
            const auto n = std::to_string(++serial);
            Raw        m{ WRK, C(cmd), std::string("client\0", 7) + n, std::string("id\0", 3) + n, "/svc?n=" + n, what + n, "", "RBAC=" + role + ",hash" };
            log += std::string(cmd == Get ? " get(" : " set(") + role + "," + what + ")";
            broker.send(rid, m);
            lastHeard = nowMs();
            const bool allowed = role == "ADMIN" || role == "BOTH" || (cmd == Get ? role == "READER" : role == "WRITER");
            Raw        r       = m;
            r.cmd              = C(Final);
            r.body             = "";
            if (allowed) expectHandled.push_back(m.body);
            if (allowed && what == "ok") {
                r.body = "done " + m.body;
                expect.push_back({ r });
            } else {
                expect.push_back({ r, true });
            }
        };
        auto notify = [&](const std::string &topic, const std::string &ctxValue) {
            const auto   n = std::to_string(++serial);
            mdp::Message m;
            m.topic           = mdp::Message::URI(topic);
            m.clientRequestID = IoBuffer(n.data(), n.size());
            log += " notify(" + topic + ")";
            SEQ_CHECK(worker.notify(std::move(m)), "notify() failed");
            bool wanted = false;
            for (auto &t : topics) wanted |= topic.starts_with("/svc") && !topic.starts_with("/svcx") && (t == "/svc#" || t == "/svc?ctx=" + ctxValue + "#");
            if (wanted) expect.push_back({ Raw{ WRK, C(Notify), "/svc", n, topic, "", "", "RBAC=NONE," } });
        };
        auto environment = [&](long timeout) {
            seq::transition();
            collect(false);
            SEQ_CHECK(timeout <= HB, "the worker waits for more than a heartbeat interval");
            SEQ_CHECK(nowMs() - lastSent <= HB, log + ": no heartbeat for " + std::to_string(nowMs() - lastSent) + " ms");
            SEQ_CHECK(nowMs() - lastHeard <= 2 * LIVENESS * HB, log + ": no attempt to reconnect for " + std::to_string(nowMs() - lastHeard) + " ms");
            {
                std::set<std::string> a;
                for (auto &t : worker.activeSubscriptions()) a.insert(t.toZmqTopic());
                std::set<std::string> mine;
                for (auto &t : topics)
                    if (t.starts_with("/svc") && !t.starts_with("/svcx")) mine.insert(t);
                SEQ_CHECK(a == mine, log + ": activeSubscriptions() has " + std::to_string(a.size()) + " entries instead of " + std::to_string(mine.size()));
            }
            SEQ_CHECK(!ending, log + ": the worker goes on after it was told to shut down");
            if (step++ == depth) {
                worker.shutdown();
                ending = true;
                return true;
            }
            seq::state(std::to_string(handled.size()) + (topics.contains("/svc#") ? "a" : "") + (topics.contains("/svc?ctx=1#") ? "b" : "") + std::to_string(nowMs() - lastSent) + "," + std::to_string(nowMs() - lastHeard));
            switch (seq::choose(16)) {
            case 0: request(Get, "READER", "ok"); break;
            case 1: request(Set, "READER", "ok"); break;
            case 2: request(Set, "WRITER", "throw"); break;
            case 3: request(Get, "ADMIN", "int"); request(Set, "BOTH", "ok"); break;
            case 4: log += " heartbeat"; broker.send(rid, Raw{ WRK, C(Heartbeat), "/svc", "", "/", "", "", BROKER_RBAC }); lastHeard = nowMs(); break;
            case 5: log += " disconnect"; broker.send(rid, Raw{ WRK, C(Disconnect), "/svc", "", "/", "unknown worker", "", BROKER_RBAC }); expectReconnect = true; break;
            case 6: log += " shutdown"; broker.send(rid, Raw{ WRK, C(Disconnect), "/svc", "", "/", "broker shutdown", "", BROKER_RBAC }); ending = true; break;
            case 7: { const bool on = topics.insert("/svc#").second; log += on ? " +/svc" : " -/svc"; if (on) broker.sub.subscribe("/svc#"); else { broker.sub.unsubscribe("/svc#"); topics.erase("/svc#"); } break; }
            case 8: { const bool on = topics.insert("/svc?ctx=1#").second; log += on ? " +/svc?ctx=1" : " -/svc?ctx=1"; if (on) broker.sub.subscribe("/svc?ctx=1#"); else { broker.sub.unsubscribe("/svc?ctx=1#"); topics.erase("/svc?ctx=1#"); } break; }
            case 9: log += " +/svcx"; if (topics.insert("/svcx#").second) broker.sub.subscribe("/svcx#"); break;
            case 10: notify("/svc?ctx=1", "1"); break;
            case 11: notify("/svc?ctx=2", "2"); notify("/svcx", ""); break;
            case 12: notify("bad", ""); break;
            case 13: log += " +" + std::to_string(timeout) + "ms"; vclock::advanceMs(timeout); break;
            case 14: log += " +450ms"; vclock::advanceMs(450); break;
            case 15: log += " garbage"; broker.router.sendFrames({ rid, WRK, C(Get), "x" }); broker.sub.subscribe("/svc?%zz#"); broker.sub.unsubscribe("/svc?%zz#"); break;
            }
            return true;
        };
        zmqfake::onPoll = environment;
        try {
            worker.run();
        } catch (const seq::Violation &) {
            throw;
        } catch (const std::exception &e) {
            seq::fail(log + ": exception left the worker's loop: " + e.what());
        }
        SEQ_CHECK(ending, log + ": the worker stopped by itself");
        collect(true);
        SEQ_CHECK(rid.empty(), log + ": the worker did not say good-bye");
    }
    x.finish();
}
const bool reg = [] {
    seq::add("C43_histories", [] { history(seq::thorough() ? 5 : 4); });
    seq::add("C43_idle", [] { // long silences
        Execution x;
        zmq::Context ctx;
        {
            RawBroker broker(ctx.zmq_ptr);
            Svc       worker(INPROC_BROKER, [](RequestContext &) {}, ctx, testSettings());
            int       polls = 0;
            int64_t   ready = -1, heard = 0, sent = 0;
            std::string rid, log;
            const int   depth = seq::thorough() ? 13 : 9;
            zmqfake::onPoll = [&](long timeout) {
                seq::transition();
                for (auto &[from, m] : broker.all()) {
                    if (m == kReady) {
                        if (ready >= 0) SEQ_CHECK(nowMs() - heard > (LIVENESS - 1) * HB, log + ": reconnects " + std::to_string(nowMs() - heard) + " ms after the last message");
                        ready = heard = nowMs();
                        rid   = from;
                    } else {
                        SEQ_CHECK(m == kHeartbeat && from == rid, log + ": sent " + m.str());
                        SEQ_CHECK(nowMs() - sent >= HB, log + ": heartbeats too often");
                    }
                    sent = nowMs();
                }
                SEQ_CHECK(nowMs() - sent <= HB, log + ": no heartbeat for " + std::to_string(nowMs() - sent) + " ms");
                SEQ_CHECK(nowMs() - heard <= 2 * LIVENESS * HB, log + ": no reconnection for " + std::to_string(nowMs() - heard) + " ms");
                if (polls++ == depth) {
                    worker.shutdown();
                    return true;
                }
                switch (seq::choose(3)) {
                case 0: vclock::advanceMs(timeout); log += " +timeout"; break;
                case 1: vclock::advanceMs(timeout - 300); log += " +timeout-300"; break;
                case 2: broker.send(rid, Raw{ WRK, C(Heartbeat), "/svc", "", "/", "", "", BROKER_RBAC }); heard = nowMs(); vclock::advanceMs(700); log += " heartbeat+700"; break;
                }
                return true;
            };
            worker.run();
            seq::state(log);
        }
    });
    seq::add("C43_roles", [] { // who may do what
        Execution x;
        {
            zmq::Context ctx;
            RawBroker    broker(ctx.zmq_ptr);
            int          calls = 0;
            Svc          worker(INPROC_BROKER, [&](RequestContext &c) { ++calls; c.reply.data = IoBuffer("secret"); }, ctx, testSettings());
            const std::string token = seq::chooseFrom(std::vector<std::string>{ "", "RBAC=READER,x", "RBAC=WRITER,x", "RBAC=BOTH,x", "RBAC=ADMIN,x", "RBAC=NONE,x", "RBAC=ADMIN", "RBAC=admin,x", "rbac=ADMIN,x", " RBAC=ADMIN,x", "RBAC=ADMIN ,x", "RBAC=READERX,x", "RBAC=READE,x", "RBAC=,ADMIN", "ADMIN,x", "RBAC=x,ADMIN,", "RBAC=RBAC=ADMIN,x", std::string("RBAC=ADMIN\0,x", 13), "RBAC=READER,,", "RBAC=BOTH,ADMIN" });
            const bool  get = seq::choose(2);
            const auto  role = token.starts_with("RBAC=") && token.find(',') != std::string::npos ? token.substr(5, token.find(',') - 5) : "";
            const bool  allowed = role == "ADMIN" || role == "BOTH" || (get ? role == "READER" : role == "WRITER");
            int         polls = 0;
            std::string rid;
            std::vector<Raw> got;
            zmqfake::onPoll = [&](long) {
                for (auto &[from, m] : broker.all()) {
                    rid = from;
                    got.push_back(m);
                }
                if (polls++ == 0) broker.send(rid, Raw{ WRK, C(get ? Get : Set), "cl", "i", "/svc", "b", "", token });
                else worker.shutdown();
                return true;
            };
            worker.run();
            seq::transition();
            SEQ_CHECK(got.size() == 2, "no reply");
            SEQ_CHECK(calls == (allowed ? 1 : 0), seq::quote(token) + (get ? " GET" : " SET") + (allowed ? " was denied" : " was executed"));
            SEQ_CHECK(got[1].err.empty() == allowed && got[1].body == (allowed ? "secret" : ""), seq::quote(token) + " got " + got[1].str());
        }
        x.finish();
    });
    return true;
}();
} // namespace
