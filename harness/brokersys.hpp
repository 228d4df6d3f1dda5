// the broker under test with raw clients, workers and subscribers
#pragma once
#include "mdp.hpp"
#include "restmock.hpp"
#include <majordomo/Broker.hpp>
using namespace opencmw;
using namespace opencmw::majordomo;
namespace {
using MID = Role<"MID", Permission::RW>;
using TestBroker = Broker<ADMIN, MID>;
constexpr int64_t HB = 1000, EXPIRY = 3000, CLIENT = 10000;
Settings testSettings() {
    Settings s;
    s.heartbeatInterval = std::chrono::milliseconds(HB);
    s.heartbeatLiveness = 3;
    s.clientTimeout     = std::chrono::milliseconds(CLIENT);
    s.dnsTimeout        = std::chrono::seconds(100000);
    return s;
}
int64_t nowMs() { return vclock::now / 1000000; }

struct System {
    TestBroker                            b;
    std::vector<std::unique_ptr<RawSock>> clients, workers, subs;
    explicit System(Settings settings = testSettings()) : b("/testbroker", settings) {}
    void  *ctx() { return b.context.zmq_ptr; }
    void   addClient() { clients.push_back(std::make_unique<RawSock>(ctx(), ZMQ_DEALER)); clients.back()->connect(INTERNAL_ADDRESS_BROKER.str()); }
    void   addWorker() { workers.push_back(std::make_unique<RawSock>(ctx(), ZMQ_DEALER)); workers.back()->connect(INTERNAL_ADDRESS_BROKER.str()); }
    void   addSub() { subs.push_back(std::make_unique<RawSock>(ctx(), ZMQ_SUB)); subs.back()->connect(INTERNAL_ADDRESS_PUBLISHER.str()); }
    void   process() {
        try {
            b.processMessages();
        } catch (const std::exception &e) {
            seq::fail(std::string("exception left the broker's message loop: ") + e.what());
        } catch (const seq::Violation &) {
            throw;
        } catch (...) {
            seq::fail("exception left the broker's message loop");
        }
    }
};
} // namespace
