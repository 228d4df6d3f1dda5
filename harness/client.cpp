// C44: the client library (MDClientCtx with its poll thread, ClientContext with its dispatcher thread) under the controlled
// scheduler: all histories of user and server actions up to a depth, and all interleavings up to a preemption bound
#include "mc.h"
#include <algorithm>
#include <cassert>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>
#include "zmqfake.hpp"
#include <Client.hpp>
using namespace opencmw;
using namespace opencmw::client;
namespace {
using U = URI<STRICT>;
struct Server { // plays the brokers; all sockets are used by one thread only
    zmq::Context             ctx;
    std::vector<void *>      routers, pubs;
    std::string              rid; // identity of the client's connection to broker 0
    struct Req { std::string id, service, topic, data, rid; int cmd; };
    std::deque<Req>          open; // received requests not yet answered
    std::vector<Req>         all;
    Req                      last;
    bool                     haveLast = false;
    Server() {
        for (int i = 0; i < 2; ++i) {
            routers.push_back(zmq_socket(ctx.zmq_ptr, ZMQ_ROUTER));
            pubs.push_back(zmq_socket(ctx.zmq_ptr, ZMQ_PUB));
            zmq_bind(routers.back(), ("inproc://brk" + std::to_string(i)).c_str());
            zmq_bind(pubs.back(), ("inproc://pub" + std::to_string(i)).c_str());
        }
    }
    ~Server() {
        for (auto *s : routers) zmq_close(s);
        for (auto *s : pubs) zmq_close(s);
    }
    void drain() {
        std::vector<std::string> f;
        while (zmqfake::recv(routers[0], f)) {
            mc::check(f.size() == 9 && f[1] == "MDPC03", "the client sent a malformed message");
            rid = f[0];
            Req r{ f[4], f[3], f[5], f[6], f[0], f[2][0] };
            all.push_back(r);
            open.push_back(r);
        }
    }
    void reply(const Req &r, const std::string &body, char cmd = 6, const std::string &id = "\1") {
        zmqfake::send(routers[0], { r.rid, "MDPC03", std::string(1, cmd), r.service, id == "\1" ? r.id : id, r.topic, body, "", "" });
    }
    void publish(int broker, const std::string &zmqTopic, const std::string &topic, const std::string &body, char cmd = 9) { zmqfake::send(pubs[static_cast<std::size_t>(broker)], { zmqTopic, "MDPC03", std::string(1, cmd), "/svc", "", topic, body, "", "" }); }
};
void settle() { std::this_thread::sleep_for(std::chrono::milliseconds(450)); }

struct Log {
    std::vector<std::string> got;
    std::size_t              seen = 0;
    std::function<void(const mdp::Message &)> cb(const std::string &name) {
        return [this, name](const mdp::Message &m) {
            mc::Untracked u;
            got.push_back(name + ":" + std::string(m.data.asString()) + (m.error.empty() ? "" : "!"));
        };
    }
    void expect(const std::vector<std::string> &want, const std::string &what) {
        mc::Untracked            u;
        std::vector<std::string> n(got.begin() + static_cast<long>(seen), got.end());
        seen = got.size();
        if (n != want) {
            std::string s = what + ": callbacks [";
            for (auto &x : n) s += x + " ";
            s += "] instead of [";
            for (auto &x : want) s += x + " ";
            mc::fail(s + "]");
        }
    }
};
Command make(mdp::Command c, const std::string &uri, std::function<void(const mdp::Message &)> cb = {}, const std::string &data = "") {
    Command cmd;
    cmd.command  = c;
    cmd.topic    = U(uri);
    cmd.callback = std::move(cb);
    cmd.data     = IoBuffer(data.data(), data.size());
    return cmd;
}
using C = mdp::Command;
int finalByte() { return static_cast<int>(C::Final); }

enum { GET_A, SET_A, GET_NOCB, SUB_1, SUB_2, SUB_1B, UNSUB_1, REPLY_OLD, REPLY_NEW, REPLY_AGAIN, DEALER_NOTIFY, DEALER_JUNK, PUB_1, PUB_2, PUB_1B, PUB_HB, GARBAGE, NOPS };
struct History {
    Server                             srv;
    Log                                log;
    std::unique_ptr<MDClientCtx>       cl = std::make_unique<MDClientCtx>(srv.ctx, std::chrono::milliseconds(1000));
    int                                n  = 0;
    std::map<std::string, std::string> cbOf;    // request id -> callback
    std::map<std::string, std::string> subs[2]; // current callback per topic and broker
    std::size_t                        sent = 0;
    const std::string                  t1 = "/svc?x=1", t2 = "/other";
    ~History() {
        cl->stop();
        cl.reset();
    }
    // the request that just reached the server
    void sentRequest(const std::string &cb, int cmd, const std::string &data) {
        settle();
        srv.drain();
        mc::check(srv.all.size() == ++sent, "a request was not sent exactly once");
        const auto &r = srv.all.back();
        mc::check(r.cmd == cmd && r.service == "/svc" && r.topic == "/svc?c=1" && r.data == data, "request changed on the way");
        if (!cb.empty()) {
            mc::check(!cbOf.contains(r.id), "two outstanding requests share one id");
            cbOf[r.id] = cb;
        }
        log.expect({}, "request");
    }
    void step(int op) {
        const std::string          k = std::to_string(++n);
        std::vector<std::string>   want;
        const char                 fin = static_cast<char>(C::Final), ntf = static_cast<char>(C::Notify);
        auto                       answered = [&](const Server::Req &r, const std::string &body) {
            if (auto it = cbOf.find(r.id); it != cbOf.end()) {
                want.push_back(it->second + ":" + body);
                cbOf.erase(it);
            }
        };
        switch (op) {
        case GET_A: cl->request(make(C::Get, "mdp://brk0/svc?c=1", log.cb("g" + k))); sentRequest("g" + k, static_cast<int>(C::Get), ""); return;
        case SET_A: cl->request(make(C::Set, "mdp://brk0/svc?c=1", log.cb("s" + k), "body" + k)); sentRequest("s" + k, static_cast<int>(C::Set), "body" + k); return;
        case GET_NOCB: cl->request(make(C::Get, "mdp://brk0/svc?c=1")); sentRequest("", static_cast<int>(C::Get), ""); return;
        case SUB_1: cl->request(make(C::Subscribe, "mds://pub0" + t1, log.cb("n" + k))); subs[0][t1] = "n" + k; break;
        case SUB_2: cl->request(make(C::Subscribe, "mds://pub0" + t2, log.cb("n" + k))); subs[0][t2] = "n" + k; break;
        case SUB_1B: cl->request(make(C::Subscribe, "mds://pub1" + t1, log.cb("n" + k))); subs[1][t1] = "n" + k; break;
        case UNSUB_1: cl->request(make(C::Unsubscribe, "mds://pub0" + t1)); subs[0].erase(t1); break;
        case REPLY_OLD:
        case REPLY_NEW: {
            if (srv.open.empty()) return;
            auto r = op == REPLY_OLD ? srv.open.front() : srv.open.back();
            if (op == REPLY_OLD) srv.open.pop_front();
            else srv.open.pop_back();
            srv.last     = r;
            srv.haveLast = true;
            srv.reply(r, "r" + k, fin);
            answered(r, "r" + k);
            break;
        }
        case REPLY_AGAIN:
            if (!srv.haveLast) return;
            srv.reply(srv.last, "d" + k, fin);
            break;
        case DEALER_NOTIFY:
            if (srv.rid.empty()) return;
            srv.reply(srv.all.back(), "x" + k, ntf, "");
            srv.reply(srv.all.back(), "y" + k, ntf, "junk");
            break;
        case DEALER_JUNK:
            if (srv.rid.empty()) return;
            srv.reply(srv.all.back(), "x" + k, fin, "");
            srv.reply(srv.all.back(), "y" + k, fin, "junk");
            srv.reply(srv.all.back(), "z" + k, fin, "99999999999999999999999");
            break;
        case PUB_1:
            srv.publish(0, t1 + "#", t1, "p" + k);
            if (subs[0].contains(t1)) want.push_back(subs[0][t1] + ":p" + k);
            break;
        case PUB_2:
            srv.publish(0, t2 + "#", t2, "p" + k);
            srv.publish(0, t2 + "#", t2, "q" + k);
            if (subs[0].contains(t2)) want = { subs[0][t2] + ":p" + k, subs[0][t2] + ":q" + k };
            break;
        case PUB_1B:
            srv.publish(1, t1 + "#", t1, "p" + k);
            if (subs[1].contains(t1)) want.push_back(subs[1][t1] + ":p" + k);
            break;
        case PUB_HB: // something else than a notification between two notifications
            srv.publish(0, t1 + "#", t1, "p" + k);
            srv.publish(0, t1 + "#", t1, "hb", static_cast<char>(C::Heartbeat));
            srv.publish(0, t1 + "#", t1, "q" + k);
            if (subs[0].contains(t1)) want = { subs[0][t1] + ":p" + k, subs[0][t1] + ":q" + k };
            break;
        case GARBAGE:
            zmqfake::send(srv.pubs[0], { t1 + "#", "x" });
            zmqfake::send(srv.pubs[0], { t1 + "#" });
            zmqfake::send(srv.pubs[0], { t1 + "#", "MDPC03", std::string(1, ntf), "/svc", "", "::", "g", "", "" });
            if (!srv.rid.empty()) zmqfake::send(srv.routers[0], { srv.rid, "MDPC03", "zz" });
            break;
        }
        settle();
        srv.drain();
        mc::check(srv.all.size() == sent, "the client sent something nobody asked for");
        log.expect(want, "operation " + std::to_string(op));
    }
};
void history(std::vector<int> first, int depth, const std::vector<int> &ops) {
    zmqfake::reset();
    {
        History h;
        for (int o : first) h.step(o);
        for (int i = 0; i < depth; ++i) h.step(ops[static_cast<std::size_t>(mc::choose(static_cast<int>(ops.size())))]);
    }
    mc::check(zmqfake::firstError().empty(), "libzmq API misuse: " + zmqfake::firstError());
    mc::check(zmqfake::openSockets() == 0, "socket left open");
    zmqfake::reset();
}

// requests that cannot be carried out: reported to their callback at most once, everything else goes on
void badRequests(int depth, bool context) {
    zmqfake::reset();
    {
        Server srv;
        Log    log;
        {
            std::unique_ptr<MDClientCtx>   raw;
            std::unique_ptr<ClientContext> ctx;
            auto                           md = std::make_unique<MDClientCtx>(srv.ctx, std::chrono::milliseconds(1000));
            if (context) {
                std::vector<std::unique_ptr<ClientBase>> v;
                v.push_back(std::move(md));
                ctx = std::make_unique<ClientContext>(std::move(v));
            } else raw = std::move(md);
            auto issue = [&](C c, const std::string &u, auto cb) {
                if (raw) raw->request(make(c, u, std::move(cb), "body"));
                else if (c == C::Get) ctx->get(U(u), std::move(cb));
                else if (c == C::Set) ctx->set(U(u), std::move(cb), IoBuffer("body", 4));
                else if (c == C::Subscribe) ctx->subscribe(U(u), std::move(cb));
                else ctx->unsubscribe(U(u));
            };
            const std::vector<std::pair<C, std::string>> bad{ { C::Get, "mds://pub0/svc" }, { C::Set, "mds://pub0/svc" }, { C::Get, "mdp://brk0/" }, { C::Get, "mdp://brk0" }, { C::Set, "mdp://brk0/a%zz" }, { C::Subscribe, "mds://pub0" }, { C::Unsubscribe, "mds://pub0" },
                { C::Subscribe, "mdp://brk0/svc*" }, { C::Get, "mdp:/svc" }, { C::Set, "mdp:/svc" }, { C::Get, "mdp://brk0:port:x/svc" }, { C::Get, "ftp://brk0/svc" }, { C::Get, "/svc" }, { C::Unsubscribe, "mdp://brk0/" } };
            for (int i = 0; i < depth; ++i) {
                const auto &[c, u] = bad[static_cast<std::size_t>(mc::choose(static_cast<int>(bad.size())))];
                const bool  withCb = mc::choose(2) == 0;
                mc::note("bad request " + u);
                bool issued = true;
                try {
                    if (withCb && c != C::Unsubscribe) issue(c, u, log.cb("bad"));
                    else issue(c, u, std::function<void(const mdp::Message &)>{});
                } catch (const std::exception &) { issued = false; } // telling the caller is fine, too
                settle();
                mc::Untracked un;
                std::vector<std::string> n(log.got.begin() + static_cast<long>(log.seen), log.got.end());
                log.seen = log.got.size();
                mc::check(n.size() <= (issued ? 1u : 0u), "a callback was called more than once");
                for (auto &x : n) mc::check(x.ends_with("!"), "a request that was not sent was answered: " + x);
            }
            srv.drain();
            srv.open.clear();
            // probe
            auto before = srv.all.size();
            issue(C::Set, "mdp://brk0/svc?c=1", log.cb("probe"));
            issue(C::Subscribe, "mds://pub0/svc?x=1", log.cb("sub"));
            settle();
            srv.drain();
            mc::check(srv.all.size() == before + 1 && srv.all.back().data == "body" && srv.all.back().topic == "/svc?c=1", "request not sent after a bad one");
            srv.reply(srv.all.back(), "ok", static_cast<char>(C::Final));
            settle();
            srv.publish(0, "/svc?x=1#", "/svc?x=1", "note");
            settle();
            log.expect({ "probe:ok", "sub:note" }, "probe");
            if (ctx) ctx->stop();
            else raw->stop();
        }
    }
    mc::check(zmqfake::firstError().empty(), "libzmq API misuse: " + zmqfake::firstError());
    mc::check(zmqfake::openSockets() == 0, "socket left open");
    zmqfake::reset();
}

// concurrency: the poll thread delivers while the user's thread issues further requests
void concurrent(int kind) {
    zmqfake::reset();
    {
        Server srv;
        Log    log;
        {
            MDClientCtx cl(srv.ctx, std::chrono::milliseconds(1000));
            cl.request(make(C::Get, "mdp://brk0/svc?c=1", log.cb("a")));
            if (kind == 1) cl.request(make(C::Subscribe, "mds://pub0/svc?x=1", log.cb("s")));
            settle();
            srv.drain();
            mc::check(srv.open.size() == 1, "request lost");
            {
                std::jthread user([&] {
                    if (kind == 0) cl.request(make(C::Get, "mdp://brk0/svc?c=1", log.cb("b")));
                    if (kind == 1) cl.request(make(C::Subscribe, "mds://pub0/other", log.cb("t")));
                    if (kind == 2) cl.request(make(C::Unsubscribe, "mds://pub0/svc?x=1"));
                });
                srv.reply(srv.open.front(), "1", static_cast<char>(C::Final));
                if (kind) srv.publish(0, "/svc?x=1#", "/svc?x=1", "2");
            }
            settle();
            srv.drain();
            if (kind == 0) {
                mc::check(srv.all.size() == 2 && srv.all[0].id != srv.all[1].id, "request lost or repeated");
                srv.reply(srv.all[1], "3", static_cast<char>(C::Final));
            } else srv.publish(0, "/other#", "/other", "4");
            settle();
            mc::Untracked u;
            std::sort(log.got.begin(), log.got.end());
            if (kind == 0) log.expect({ "a:1", "b:3" }, "concurrent requests");
            if (kind == 1) log.expect({ "a:1", "s:2", "t:4" }, "subscription during delivery");
            if (kind == 2) log.expect({ "a:1" }, "cancellation without subscription");
            cl.stop();
        }
    }
    mc::check(zmqfake::firstError().empty(), "libzmq API misuse: " + zmqfake::firstError());
    mc::check(zmqfake::openSockets() == 0, "socket left open");
    zmqfake::reset();
}
// two user threads share a ClientContext; start and stop are part of the explored behaviour
void context(int users, bool stopEarly) {
    zmqfake::reset();
    {
        Server srv;
        Log    log;
        {
            std::vector<std::unique_ptr<ClientBase>> v;
            v.push_back(std::make_unique<MDClientCtx>(srv.ctx, std::chrono::milliseconds(1000)));
            ClientContext ctx(std::move(v));
            {
                std::vector<std::jthread> us;
                for (int i = 0; i < users; ++i)
                    us.emplace_back([&, i] {
                        const std::string n(1, static_cast<char>('a' + i));
                        ctx.set(U("mdp://brk0/svc?c=1"), log.cb(n), IoBuffer(n.data(), 1));
                    });
            }
            if (!stopEarly) {
                settle();
                srv.drain();
                mc::check(srv.all.size() == static_cast<std::size_t>(users), "request lost or repeated");
                std::vector<std::string> want;
                for (auto &r : srv.all) {
                    srv.reply(r, r.data, static_cast<char>(C::Final));
                    want.push_back(r.data + ":" + r.data);
                }
                settle();
                log.expect(want, "shared context");
                if (mc::choose(2)) ctx.stop();
            }
        }
        srv.drain();
        mc::Untracked u;
        if (stopEarly) mc::check(log.got.empty() && srv.all.size() <= static_cast<std::size_t>(users), "callback without reply");
    }
    mc::check(zmqfake::firstError().empty(), "libzmq API misuse: " + zmqfake::firstError());
    mc::check(zmqfake::openSockets() == 0, "socket left open");
    zmqfake::reset();
}
const bool reg = [] {
    mc::Options h;
    h.preemptions = 0; h.maxSteps = 400000; h.spinLimit = 600; h.early_timeout = false;
    mc::Options ht = h;
    ht.maxSeconds  = 3000;
    std::vector<int> all;
    for (int i = 0; i < NOPS; ++i) all.push_back(i);
    for (int f : { GET_A, SET_A, GET_NOCB, SUB_1, SUB_2, SUB_1B, UNSUB_1, PUB_1, GARBAGE })
        mc::add("C44_histories_" + std::to_string(f), [f, all] { history({ f }, 3, all); }, h, ht);
    mc::add("C44_replies", [] { history({ GET_A, SET_A }, 4, { GET_A, REPLY_OLD, REPLY_NEW, REPLY_AGAIN, DEALER_NOTIFY, DEALER_JUNK, SUB_1, PUB_1 }); }, h, ht);
    mc::add("C44_subscriptions", [] { history({ SUB_1 }, 5, { SUB_1, SUB_1B, UNSUB_1, PUB_1, PUB_1B, PUB_HB }); }, h, ht);
    mc::add("C44_bad_requests", [] { badRequests(2, false); }, h, ht);
    mc::add("C44_bad_requests_context", [] { badRequests(1, true); }, h, ht);
    mc::Options c;
    c.preemptions = 1; c.maxSteps = 400000; c.spinLimit = 600; c.early_timeout = false;
    mc::Options ct = c;
    ct.preemptions = 2; ct.maxSeconds = 3000;
    mc::add("C44_concurrent_requests", [] { concurrent(0); }, c, ct);
    mc::add("C44_concurrent_subscribe", [] { concurrent(1); }, c, ct);
    mc::add("C44_concurrent_cancel", [] { concurrent(2); }, c, ct);
    mc::add("C44_context", [] { context(2, false); }, c, ct);
    mc::add("C44_context_stop", [] { context(1, true); }, c, ct);
    return true;
}();
} // namespace
