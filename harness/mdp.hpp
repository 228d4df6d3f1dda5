// helpers of the MDP harnesses: virtual clock, raw-frame peers and the broker under test on the in-memory libzmq
#pragma once
#include "seq.h"
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <functional>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include "zmqfake.hpp"

namespace vclock {
inline bool    on  = false;
inline int64_t now = 0; // ns
inline void    start() { on = true; now = 1000LL * 1000000000LL; }
inline void    stop() { on = false; }
inline void    advanceMs(int64_t ms) { now += ms * 1000000LL; }
} // namespace vclock
extern "C" int clock_gettime(clockid_t id, struct timespec *t) noexcept {
    if (vclock::on) {
        t->tv_sec  = vclock::now / 1000000000LL;
        t->tv_nsec = vclock::now % 1000000000LL;
        return 0;
    }
    return static_cast<int>(syscall(SYS_clock_gettime, id, t));
}
extern "C" int clock_nanosleep(clockid_t id, int flags, const struct timespec *t, struct timespec *rem) {
    if (vclock::on) {
        if (flags & TIMER_ABSTIME) vclock::now = std::max<int64_t>(vclock::now, t->tv_sec * 1000000000LL + t->tv_nsec);
        else vclock::now += t->tv_sec * 1000000000LL + t->tv_nsec;
        return 0;
    }
    return static_cast<int>(syscall(SYS_clock_nanosleep, id, flags, t, rem));
}
extern "C" int nanosleep(const struct timespec *t, struct timespec *rem) {
    return clock_nanosleep(CLOCK_MONOTONIC, 0, t, rem);
}

struct Raw { // one MDP message as seen on the wire
    std::string proto, cmd, svc, id, topic = "/", body, err, rbac;
    bool        operator==(const Raw &) const = default;
    std::vector<std::string> frames() const { return { proto, cmd, svc, id, topic, body, err, rbac }; }
    std::string str() const {
        return proto + " cmd" + (cmd.size() == 1 ? std::to_string(static_cast<unsigned char>(cmd[0])) : seq::quote(cmd)) + " svc=" + seq::quote(svc) + " id=" + seq::quote(id) + " topic=" + seq::quote(topic) + " body=" + seq::quote(body) + " err=" + seq::quote(err) + " rbac=" + seq::quote(rbac);
    }
    auto operator<=>(const Raw &) const = default;
};
inline std::optional<Raw> fromFrames(const std::vector<std::string> &f, std::string *src = nullptr) {
    const std::size_t o = src ? 1 : 0;
    if (f.size() != 8 + o) return std::nullopt;
    if (src) *src = f[0];
    return Raw{ f[o], f[o + 1], f[o + 2], f[o + 3], f[o + 4], f[o + 5], f[o + 6], f[o + 7] };
}
inline const std::string CLI = "MDPC03", WRK = "MDPW03";
enum Cmd : char { Invalid = 0, Get, Set, Partial, Final, Ready, Disconnect, Subscribe, Unsubscribe, Notify, Heartbeat };
inline std::string C(Cmd c) { return std::string(1, static_cast<char>(c)); }
inline const std::string BROKER_RBAC = "RBAC=ADMIN,abcdef12345";

// one execution: virtual time, clean fake network; at the end every socket must be closed and every frame released
struct Execution {
    Execution() {
        zmqfake::reset();
        vclock::start();
        zmqfake::onPoll = [](long) { return true; };
    }
    ~Execution() {
        vclock::stop();
        zmqfake::reset();
    }
    void finish() { // call after all objects of the execution are gone
        SEQ_CHECK(zmqfake::firstError().empty(), "libzmq API misuse: " + zmqfake::firstError());
        SEQ_CHECK(zmqfake::openSockets() == 0, std::to_string(zmqfake::openSockets()) + " socket(s) left open");
        SEQ_CHECK(zmqfake::liveContents() == 0, std::to_string(zmqfake::liveContents()) + " message frame(s) never released");
    }
};
struct RawSock {
    void *s = nullptr;
    RawSock(void *ctx, int type) : s(zmq_socket(ctx, type)) {}
    RawSock(const RawSock &) = delete;
    ~RawSock() { close(); }
    void close() {
        if (s) zmq_close(s);
        s = nullptr;
    }
    void connect(const std::string &ep) { zmq_connect(s, ep.c_str()); }
    void send(const Raw &m) { zmqfake::send(s, m.frames()); }
    void sendFrames(const std::vector<std::string> &f) { zmqfake::send(s, f); }
    std::vector<Raw> all() {
        std::vector<Raw>         r;
        std::vector<std::string> f;
        while (zmqfake::recv(s, f)) {
            auto m = fromFrames(f);
            SEQ_CHECK(m, "message with " + std::to_string(f.size()) + " frames instead of 8 sent");
            r.push_back(*m);
        }
        return r;
    }
    std::vector<std::pair<std::string, Raw>> allPub() { // SUB side: first frame is the subscription topic
        std::vector<std::pair<std::string, Raw>> r;
        std::vector<std::string>                 f;
        while (zmqfake::recv(s, f)) {
            std::string src;
            auto        m = fromFrames(f, &src);
            SEQ_CHECK(m, "publication with " + std::to_string(f.size()) + " frames instead of 9 sent");
            r.emplace_back(src, *m);
        }
        return r;
    }
    void subscribe(const std::string &t) { zmq_setsockopt(s, ZMQ_SUBSCRIBE, t.data(), t.size()); }
    void unsubscribe(const std::string &t) { zmq_setsockopt(s, ZMQ_UNSUBSCRIBE, t.data(), t.size()); }
};
