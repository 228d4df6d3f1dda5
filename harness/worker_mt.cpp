// C43: notifications by several threads while the worker's own thread serves requests and cleans up (controlled scheduler)
#include "mc.h"
#include <algorithm>
#include <cassert>
#include <functional>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include "zmqfake.hpp"
#include "restmock.hpp"
#include <majordomo/Worker.hpp>
using namespace opencmw;
using namespace opencmw::majordomo;
namespace {
using Svc = BasicWorker<"/svc">;
Settings testSettings() {
    Settings s;
    s.heartbeatInterval = std::chrono::milliseconds(1000);
    s.heartbeatLiveness = 1000;
    return s;
}
struct Fixture {
    zmq::Context ctx;
    void        *router, *sub;
    std::map<std::string, std::vector<std::string>> got; // thread -> notification ids in order
    int          replies = 0;
    std::string  rid;
    Fixture() {
        router = zmq_socket(ctx.zmq_ptr, ZMQ_ROUTER);
        sub    = zmq_socket(ctx.zmq_ptr, ZMQ_SUB);
        zmq_bind(router, "inproc://broker/router");
        zmq_bind(sub, "inproc://broker/subscribe");
        zmq_setsockopt(sub, ZMQ_SUBSCRIBE, "/svc#", 5);
    }
    ~Fixture() {
        zmq_close(router);
        zmq_close(sub);
    }
    void drain() {
        std::vector<std::string> f;
        while (zmqfake::recv(router, f)) {
            mc::check(f.size() == 9, "message with a wrong number of frames");
            if (f[2][0] == 9) got[f[4].substr(0, 1)].push_back(f[4]);
            if (f[2][0] == 4) ++replies;
            rid = f[0];
        }
    }
};
void notify(Svc &w, const std::string &id) {
    mdp::Message m;
    m.topic           = mdp::Message::URI("/svc");
    m.clientRequestID = IoBuffer(id.data(), id.size());
    mc::check(w.notify(std::move(m)), "notify() failed");
}
void scenario(int threads, int each, int64_t advanceMs, bool between) {
    zmqfake::reset();
    {
        Fixture f;
        {
            Svc          worker(INPROC_BROKER, [](RequestContext &) {}, f.ctx, testSettings());
            std::jthread run([&] { worker.run(); });
            while (worker.activeSubscriptions().empty()) std::this_thread::sleep_for(std::chrono::milliseconds(10));
            if (advanceMs && between)
                for (int t = 0; t < threads; ++t) notify(worker, "m" + std::to_string(t));
            {
                std::vector<std::jthread> ts;
                for (int t = 0; t < threads; ++t)
                    ts.emplace_back([&, t] {
                        const std::string n(1, static_cast<char>('a' + t));
                        for (int i = 0; i < each; ++i) {
                            if (i == (between ? 1 : 0) && advanceMs) mc::advanceTime(advanceMs * 1000000);
                            notify(worker, n + std::to_string(i));
                        }
                    });
            }
            std::size_t want = static_cast<std::size_t>(threads * each);
            while (true) {
                f.drain();
                std::size_t n = 0;
                for (auto &[k, v] : f.got)
                    if (k != "m") n += v.size();
                if (n >= want) break;
                std::this_thread::sleep_for(std::chrono::milliseconds(10));
            }
            worker.shutdown();
            run.join();
        }
        f.drain();
        for (int t = 0; t < threads; ++t) {
            std::vector<std::string> w;
            const std::string        n(1, static_cast<char>('a' + t));
            for (int i = 0; i < each; ++i) w.push_back(n + std::to_string(i));
            mc::check(f.got[n] == w, "notifications of thread " + n + " lost, duplicated or out of order");
        }
    }
    mc::check(zmqfake::firstError().empty(), "libzmq API misuse: " + zmqfake::firstError());
    mc::check(zmqfake::openSockets() == 0, "socket left open");
    zmqfake::reset();
}
const bool reg = [] {
    mc::Options q, t;
    q.preemptions = 1; q.unlockPoints = t.unlockPoints = true; q.maxSteps = t.maxSteps = 100000; q.spinLimit = t.spinLimit = 40;
    t.preemptions = 2;
    mc::add("C43_first_notify", [] { scenario(1, 1, 40000, false); }, q, t);
    mc::add("C43_late_notify", [] { scenario(1, 2, 40000, true); }, q, t);
    mc::add("C43_two_notifiers", [] { scenario(2, 1, 0, false); }, q, t);
    return true;
}();
} // namespace
