// C39-C42: the Majordomo broker driven by raw clients, workers and subscribers; every history of their actions up to a
// depth is executed on the real broker and compared with a reference model of the protocol.
#include "brokersys.hpp"
namespace {
// ---------------------------------------------------------------------------------------------------- reference model
struct Model {
    struct Req { int client; Raw m; };
    struct Wk { bool known = false; std::string service; int64_t expiry = 0; };
    struct Svc { std::deque<int> waiting; std::array<std::deque<Req>, 2> pending; };
    struct Out { // expected traffic of one step
        std::map<int, std::vector<Raw>> toClient, toWorker;
        auto operator<=>(const Out &) const = default;
    };
    std::map<std::string, Svc> services;
    std::map<int, Wk>          workers;
    std::map<int, int64_t>     clients; // expiry
    int64_t                    heartbeatAt = 0;

    void purge() {
        for (auto &[n, s] : services)
            for (auto it = s.waiting.begin(); it != s.waiting.end();) {
                if (workers[*it].expiry < nowMs()) {
                    workers[*it].known = false;
                    it                 = s.waiting.erase(it);
                } else ++it;
            }
    }
    void dispatch(Svc &s, Out &o) {
        purge();
        while (!s.waiting.empty()) {
            auto &q = !s.pending[0].empty() ? s.pending[0] : s.pending[1];
            if (q.empty()) return;
            auto r = q.front();
            q.pop_front();
            auto w = s.waiting.front();
            s.waiting.pop_front();
            r.m.proto = WRK;
            r.m.svc   = "<client" + std::to_string(r.client) + ">";
            o.toWorker[w].push_back(r.m);
        }
    }
    void waiting(int w, Out &o) {
        auto &s = services[workers[w].service];
        if (std::ranges::find(s.waiting, w) == s.waiting.end()) s.waiting.push_back(w);
        workers[w].expiry = nowMs() + EXPIRY;
        dispatch(s, o);
    }
    Svc *find(const std::string &name) { // the alphabets used never have two registered names that are both a prefix
        for (auto &[n, s] : services)
            if (name.starts_with(n)) return &s;
        return nullptr;
    }
    void fromClient(int c, const Raw &m, Out &o) {
        clients[c] = nowMs() + CLIENT;
        if (m.svc == "/mmi.echo") {
            o.toClient[c].push_back(m);
        } else if (auto *s = find(m.svc)) {
            s->pending[m.rbac.starts_with("RBAC=ADMIN,") ? 0 : 1].push_back({ c, m });
            dispatch(*s, o);
        } else {
            o.toClient[c].push_back(Raw{ CLI, C(Final), m.svc, m.id, "/mmi.service", "", "unknown service (error 501): '" + m.svc + "'", BROKER_RBAC });
        }
    }
    void fromWorker(int w, const Raw &m, int replyTo, Out &o) {
        auto &k = workers[w];
        switch (m.cmd[0]) {
        case Ready:
            if (!k.known) k = Wk{ true, m.svc, 0 };
            services.try_emplace(m.svc);
            waiting(w, o);
            break;
        case Final:
        case Partial:
            if (!k.known) {
                o.toWorker[w].push_back(Raw{ "<disconnect>" });
                break;
            }
            if (clients.contains(replyTo)) {
                Raw r   = m;
                r.proto = CLI;
                r.svc   = k.service;
                o.toClient[replyTo].push_back(r);
            }
            if (m.cmd[0] == Final) waiting(w, o);
            else k.expiry = nowMs() + EXPIRY;
            break;
        case Heartbeat:
            if (!k.known) o.toWorker[w].push_back(Raw{ "<disconnect>" });
            else k.expiry = nowMs() + EXPIRY;
            break;
        }
    }
    void maintenance(Out &o, bool withHeartbeats) {
        purge();
        std::erase_if(clients, [](auto &c) { return c.second < nowMs(); });
        if (withHeartbeats && nowMs() >= heartbeatAt) {
            for (auto &[n, s] : services)
                for (int w : s.waiting) o.toWorker[w].push_back(Raw{ WRK, C(Heartbeat), workers[w].service, "", "/", "", "", BROKER_RBAC });
            heartbeatAt = nowMs() + HB;
        }
    }
    std::string key() const {
        std::string k;
        for (auto &[n, s] : services) {
            k += n + ":";
            for (int w : s.waiting) k += std::to_string(w) + ",";
            for (auto &q : s.pending) {
                k += "|";
                for (auto &r : q) k += r.m.id + ";";
            }
        }
        for (auto &[w, s] : workers) k += "w" + std::to_string(w) + (s.known ? s.service : "-") + (s.known ? std::to_string((s.expiry - nowMs()) / 100) : "");
        for (auto &[c, e] : clients) k += "c" + std::to_string(c) + std::to_string((e - nowMs()) / 100);
        return k;
    }
};
std::string show(const Model::Out &o) {
    std::string s;
    for (auto &[c, v] : o.toClient)
        for (auto &m : v) s += "\n   client" + std::to_string(c) + " <- " + m.str();
    for (auto &[w, v] : o.toWorker)
        for (auto &m : v) s += "\n   worker" + std::to_string(w) + " <- " + m.str();
    return s.empty() ? " nothing" : s;
}

// what the environment does
struct Driver {
    System                          sys;
    Model                           model;
    bool                            heartbeats; // compare heartbeats too
    std::map<std::string, int>      clientOfId; // routing id -> client
    std::map<int, std::vector<std::pair<int, Raw>>> inHand; // worker -> (client, request) not answered yet
    struct Pending { bool client; int who; Raw m; int replyTo; };
    std::vector<Pending>            batch;
    int                             serial = 0;
    std::string                     log;

    explicit Driver(int nc, int nw, bool hb) : heartbeats(hb) {
        model.heartbeatAt = nowMs() + HB;
        for (int i = 0; i < nc; ++i) sys.addClient();
        for (int i = 0; i < nw; ++i) sys.addWorker();
    }
    void request(int c, const std::string &svc, bool admin, Cmd cmd = Get) {
        const auto n = std::to_string(++serial);
        Raw        m{ CLI, C(cmd), svc, "id" + n, "/t" + n + "?x=" + n, std::string("body\0", 5) + n, "e" + n, std::string(admin ? "RBAC=ADMIN," : n == "2" ? "RBAC=MID," : "tok") + n };
        log += " c" + std::to_string(c) + ":req" + n + "(" + svc + (admin ? ",ADMIN" : "") + ")";
        sys.clients[static_cast<std::size_t>(c)]->send(m);
        batch.push_back({ true, c, m, 0 });
    }
    void worker(int w, Cmd cmd, const std::string &svc) {
        const auto n = std::to_string(++serial);
        Raw        m{ WRK, C(cmd), svc, "", "/", "", "", "wtok" };
        int        to = -1;
        if (cmd == Final || cmd == Partial) {
            auto &h = inHand[w];
            if (h.empty()) return; // nothing to answer
            to      = h.front().first;
            m.svc   = h.front().second.svc; // client's routing id
            m.id    = h.front().second.id;
            m.topic = "/reply?n=" + n;
            m.body  = "reply" + n;
            m.err   = "err" + n;
            if (cmd == Final) h.erase(h.begin());
        }
        if (cmd == Ready) m.body = "description";
        log += " w" + std::to_string(w) + ":" + (cmd == Ready ? "ready(" + svc + ")" : cmd == Final ? "final" : cmd == Partial ? "partial" : cmd == Notify ? "notify" : "heartbeat");
        sys.workers[static_cast<std::size_t>(w)]->send(m);
        batch.push_back({ false, w, m, to });
    }
    void advance(int64_t ms) {
        log += " +" + std::to_string(ms) + "ms";
        vclock::advanceMs(ms);
    }
    // let the broker process everything that was sent; the result must be the model's for some order of the batch
    void step() {
        seq::transition();
        sys.process();
        Model::Out got;
        for (int c = 0; c < static_cast<int>(sys.clients.size()); ++c)
            for (auto &m : sys.clients[static_cast<std::size_t>(c)]->all()) got.toClient[c].push_back(m);
        for (int w = 0; w < static_cast<int>(sys.workers.size()); ++w)
            for (auto m : sys.workers[static_cast<std::size_t>(w)]->all()) {
                if (m.proto == WRK && m.cmd == C(Heartbeat)) {
                    if (heartbeats) got.toWorker[w].push_back(m);
                    continue;
                }
                if (m.proto == WRK && m.cmd == C(Disconnect)) {
                    // told to shut down for good only at the broker's shutdown
                    SEQ_CHECK(m.body != "broker shutdown", log + ": worker" + std::to_string(w) + " is told that the broker shuts down");
                    got.toWorker[w].push_back(Raw{ "<disconnect>" });
                    continue;
                }
                const auto rid = m.svc; // must identify one client, always the same
                // which client sent the request with that id?
                int from = -1;
                for (auto &[id, c] : sentBy)
                    if (id == m.id) from = c;
                SEQ_CHECK(from >= 0, log + ": worker" + std::to_string(w) + " received something no client sent: " + m.str());
                auto [it, fresh] = clientOfId.try_emplace(rid, from);
                SEQ_CHECK(it->second == from, log + ": two clients share the source id " + seq::quote(rid));
                inHand[w].emplace_back(from, m);
                m.svc = "<client" + std::to_string(from) + ">";
                got.toWorker[w].push_back(m);
            }
        // all orders that keep each peer's own order
        std::vector<std::size_t> idx(batch.size());
        for (std::size_t i = 0; i < idx.size(); ++i) idx[i] = i;
        std::optional<Model> match;
        std::string          first;
        do {
            bool ok = true;
            for (std::size_t i = 0; i < idx.size(); ++i)
                for (std::size_t j = i + 1; j < idx.size(); ++j)
                    if (idx[j] < idx[i] && batch[idx[i]].client == batch[idx[j]].client && batch[idx[i]].who == batch[idx[j]].who) ok = false;
            if (!ok) continue;
            Model      m = model;
            Model::Out o;
            for (auto i : idx) {
                auto &p = batch[i];
                if (p.client) m.fromClient(p.who, p.m, o);
                else m.fromWorker(p.who, p.m, p.replyTo, o);
            }
            m.maintenance(o, heartbeats);
            if (first.empty()) first = show(o);
            if (o == got) {
                match = m;
                break;
            }
        } while (std::next_permutation(idx.begin(), idx.end()));
        SEQ_CHECK(match, "after" + log + "\n the broker sent" + show(got) + "\n but should have sent" + first);
        model = *match;
        batch.clear();
        seq::state(model.key());
    }
    std::map<std::string, int> sentBy; // request id -> client
    void note() {
        for (auto &p : batch)
            if (p.client) sentBy[p.m.id] = p.who;
    }
};

const bool reg = [] {
    // C39: request/reply routing, one action at a time and batches of two
    auto routing = [](int nActions, bool batches) mutable {
        Execution x;
        {
            Driver d(2, 2, false);
            int    usedWorkers = 0;
            if (!batches) { // deeper histories continue from some busy situations
                const int start = seq::choose(5);
                if (start) --nActions;
                auto did = [&] { d.note(); d.step(); };
                if (start) { d.worker(0, Ready, "/A"); did(); usedWorkers = 1; }
                if (start == 1) { d.worker(1, Ready, "/A"); did(); usedWorkers = 2; }
                if (start >= 2) { d.request(0, "/A", false); did(); }
                if (start == 2) { d.request(1, "/A", false); did(); d.request(0, "/A", true); did(); }
                if (start == 3) { d.worker(1, Ready, "/B"); did(); usedWorkers = 2; d.request(0, "/B/sub", false); did(); }
                if (start == 4) { d.advance(9950); did(); }
            }
            for (int i = 0; i < nActions; ++i) {
                const int a = seq::choose(13 + (batches ? 0 : 3));
                auto      wk = [&](int w) { usedWorkers = std::max(usedWorkers, w + 1); };
                switch (a) {
                case 0: d.request(0, "/A", true); break;
                case 1: d.request(0, "/A", false, Set); break;
                case 2: d.request(1, "/A", false); break;
                case 3: d.request(1, "/A", true); break;
                case 4: d.request(0, "/B/sub", false); break;
                case 5: d.request(1, "/none", false); break;
                case 6: d.request(0, "/mmi.echo", false); break;
                case 7: wk(0); d.worker(0, Ready, "/A"); break;
                case 8:
                    if (!usedWorkers) return; // symmetric to worker 0
                    d.worker(1, Ready, "/A");
                    break;
                case 9: d.worker(1, Ready, "/B"); usedWorkers = 2; break;
                case 10: d.worker(0, Final, ""); break;
                case 11: d.worker(1, Final, ""); break;
                case 12: d.worker(0, Partial, ""); break;
                case 13: d.advance(3100); break;
                case 14: d.advance(9950); break;
                case 15: d.worker(0, Heartbeat, "/A"); break;
                }
                d.note();
                if (!batches || i % 2 == 1 || i + 1 == nActions) d.step();
            }
            d.step(); // nothing more happens by itself
        }
        x.finish();
    };
    seq::add("C39_histories", [=]() mutable { routing(seq::thorough() ? 5 : 4, false); });
    seq::add("C39_concurrent", [=]() mutable { routing(seq::thorough() ? 5 : 4, true); });
    // internal services and the REST server as a client
    seq::add("C39_internal", [] {
        Execution x;
        {
            Driver d(1, 2, false);
            auto  &cl = *d.sys.clients[0];
            int    serial = 0;
            std::set<std::string> names{ "/mmi.dns", "/mmi.echo", "/mmi.openapi", "/mmi.service" };
            std::map<std::string, std::string> desc;
            for (int w = 0; w < 2; ++w) {
                const int a = seq::choose(3);
                if (a == 0) continue;
                const std::string svc = a == 1 ? "/A" : "/b.c";
                d.sys.workers[static_cast<std::size_t>(w)]->send(Raw{ WRK, C(Ready), svc, "", "/", "text " + std::to_string(w), "", "" });
                names.insert(svc);
                desc.try_emplace(svc, "text " + std::to_string(w));
                d.sys.process();
            }
            for (int i = 0; i < 2; ++i) {
                const std::string target = seq::chooseFrom(std::vector<std::string>{ "/A", "/b.c", "/mmi.service", "/nope", "" });
                const int         kind   = seq::choose(3);
                Raw               m{ CLI, C(seq::choose(2) ? Get : Set), kind == 0 ? "/mmi.service" : kind == 1 ? "/mmi.openapi" : "/mmi.echo", "i" + std::to_string(++serial), "/topic?z=1", target, "", "tok" };
                Raw               w = m;
                if (kind == 0) {
                    w.cmd = C(Final);
                    std::string list;
                    for (auto &n : names) list += (list.empty() ? "" : ",") + n;
                    w.body = target.empty() ? list : names.contains(target) ? "200" : "404";
                } else if (kind == 1) {
                    w.cmd  = C(Final);
                    w.body = desc.contains(target) ? desc[target] : "";
                    w.err  = names.contains(target) ? "" : "Requested invalid service '" + target + "'";
                }
                cl.send(m);
                d.sys.process();
                const auto got = cl.all();
                SEQ_CHECK(got.size() == 1, "internal service sent " + std::to_string(got.size()) + " replies to " + m.str());
                SEQ_CHECK(got[0] == w, "internal service replied " + got[0].str() + " instead of " + w.str());
                for (auto &wk : d.sys.workers)
                    for (auto &g : wk->all()) SEQ_CHECK(g.cmd == C(Heartbeat), "worker got " + g.str());
                seq::transition();
            }
        }
        x.finish();
    });
    seq::add("C39_rest", [] {
        using RS = opencmw::majordomo::detail::rest::RestServer;
        Execution x;
        RS::state() = {};
        {
            System s;
            zmqfake::fdReady = [](int) -> short { return RS::state().inject.empty() ? 0 : ZMQ_POLLIN; };
            s.addClient();
            s.addWorker();
            opencmw::majordomo::rest::Settings rs;
            SEQ_CHECK(s.b.bindRest(rs), "binding the REST server failed");
            auto &wk = *s.workers[0];
            auto &cl = *s.clients[0];
            if (seq::choose(2)) wk.send(Raw{ WRK, C(Ready), "/A", "", "/", "d", "", "" });
            else wk.send(Raw{ WRK, C(Ready), "/zzz", "", "/", "d", "", "" });
            s.process();
            const bool  hasA = s.b.settings.heartbeatLiveness == 3 && [&] { bool h = false; s.b.forEachService([&](auto n, auto) { h |= n == "/A"; }); return h; }();
            std::map<std::string, Raw> expect; // id -> what must come back over REST
            std::vector<std::string>   toWorker;
            const int                  n = seq::thorough() ? 4 : 3;
            for (int i = 0; i < n; ++i) {
                const int   k  = seq::choose(4);
                const auto  id = "r" + std::to_string(i);
                RS::Message m;
                m.command         = seq::choose(2) ? mdp::Command::Get : mdp::Command::Set;
                m.serviceName     = k == 0 ? "/A" : k == 1 ? "/mmi.echo" : "/none";
                m.clientRequestID = IoBuffer(id.data(), id.size());
                m.topic           = mdp::Message::URI("/t");
                if (k == 3) { // an MDP client asks at the same time
                    cl.send(Raw{ CLI, C(Get), "/mmi.echo", id, "/", "", "", "" });
                    continue;
                }
                if (k == 0 && hasA) toWorker.push_back(id);
                expect[id] = Raw{ "", "", m.serviceName };
                RS::state().inject.push_back(std::move(m));
            }
            s.process(); // polls the REST server
            s.process(); // everything that can be answered now is answered without waiting for further events
            int echoed = static_cast<int>(cl.all().size());
            std::set<std::string> answered;
            auto collect = [&] {
                for (auto &r : RS::state().responses) {
                    const std::string id(r.clientRequestID.asString());
                    SEQ_CHECK(expect.contains(id) && answered.insert(id).second, "REST response to " + seq::quote(id) + " out of nowhere or twice");
                    SEQ_CHECK(r.sourceId == "rest", "REST response for source " + r.sourceId);
                }
                RS::state().responses.clear();
            };
            collect();
            for (auto &[id, e] : expect)
                if (!(e.svc == "/A" && hasA)) SEQ_CHECK(answered.contains(id), "REST request " + id + " to " + e.svc + " not answered although it needs no worker (" + std::to_string(expect.size()) + " requests at once)");
            for (std::size_t i = 0; i < toWorker.size(); ++i) { // the worker gets them one by one in order
                std::vector<Raw> got;
                for (auto &g : wk.all())
                    if (g.cmd != C(Heartbeat)) got.push_back(g);
                SEQ_CHECK(got.size() == 1 && got[0].id == toWorker[i] && got[0].svc == "rest", "worker has " + std::to_string(got.size()) + " REST requests in hand, expected " + toWorker[i]);
                wk.send(Raw{ WRK, C(Final), "rest", got[0].id, "/t", "done", "", "" });
                s.process();
                collect();
                SEQ_CHECK(answered.contains(toWorker[i]), "reply to REST request " + toWorker[i] + " not handed to the REST server");
            }
            (void) echoed;
            seq::transition();
        }
        RS::state() = {};
        x.finish();
    });
    // C41: liveness of workers
    seq::add("C41_liveness", [] {
        Execution x;
        {
            Driver    d(1, 2, true);
            const int depth = seq::thorough() ? 6 : 5;
            bool      used  = false;
            for (int i = 0; i < depth; ++i) {
                switch (seq::choose(10)) {
                case 9: d.worker(0, Notify, "/A"); break;
                case 0: d.worker(0, Ready, "/A"); used = true; break;
                case 1: if (!used) return; d.worker(1, Ready, "/A"); break;
                case 2: d.worker(0, Heartbeat, "/A"); break;
                case 3: if (!used) return; d.worker(1, Heartbeat, "/A"); break;
                case 4: d.request(0, "/A", false); break;
                case 5: d.worker(0, Final, ""); break;
                case 6: d.advance(450); break;
                case 7: d.advance(1100); break;
                case 8: d.advance(2900); break;
                }
                d.note();
                d.step();
            }
            const bool viaRun = seq::choose(2);
            if (viaRun) {
                d.sys.b.shutdown();
                d.sys.b.run();
            } else {
                d.sys.b.cleanup();
            }
            for (int w = 0; w < 2; ++w) {
                int n = 0;
                for (auto &m : d.sys.workers[static_cast<std::size_t>(w)]->all()) {
                    if (m.cmd == C(Heartbeat)) continue;
                    SEQ_CHECK(m.proto == WRK && m.cmd == C(Disconnect) && m.body == "broker shutdown", "worker " + std::to_string(w) + " got " + m.str() + " at shutdown");
                    ++n;
                }
                const bool known = d.model.workers[w].known;
                SEQ_CHECK(n == (known ? 1 : 0), d.log + ": worker " + std::to_string(w) + " got " + std::to_string(n) + " disconnects at shutdown, registered: " + (known ? "yes" : "no"));
            }
        }
        x.finish();
    });
    return true;
}();
} // namespace
