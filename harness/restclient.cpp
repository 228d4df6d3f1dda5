// C53: the real REST client with its worker thread over a stand-in for libnghttp2 and recorded socket calls. The worker only
// runs while the harness waits for it (it is parked in poll() or sleep), so every history is deterministic.
#include <functional>
#include <condition_variable>
#include <future>
#include <map>
#include <set>
#include <cstring>
#include <deque>
#include <string>
#include <vector>
#include <cerrno>
#include <cstdarg>
#include <memory>
#include <mutex>
#include <thread>
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/socket.h>
#include <netdb.h>
#include <fcntl.h>
#include <RestClientNative.hpp>
#include "seq.h"
using namespace opencmw;
namespace {
struct Conn {
    std::string in, out;
    bool        peerClosed = false, closed = false, connected = false, refused = false, resetByPeer = false, stalled = false;
    int         slow = 0;     // poll rounds until the connection is established
    size_t      chunk = 0;    // accept at most so many bytes per send
    std::string misuse;
};
std::mutex              g_m;
std::condition_variable g_cv;
std::map<int, Conn>     g_conns;
int                     g_next = 2000, g_connectMode = 0;
bool                    g_parked = false, g_go = false, g_free = false, g_noHost = false;
size_t                  g_chunk = 0;
int                     g_idle  = 0; // rounds in a row in which nothing was ready
void park(std::unique_lock<std::mutex> &l) {
    g_parked = true;
    g_cv.notify_all();
    g_cv.wait(l, [] { return g_go || g_free; });
    g_go = g_parked = false;
}
} // namespace
extern "C" {
int socket(int, int, int) noexcept {
    std::lock_guard l(g_m);
    Conn c;
    c.refused = g_connectMode == 2;
    c.slow    = g_connectMode == 1 ? 2 : 0;
    c.chunk   = g_chunk;
    g_conns[g_next] = c;
    return g_next++;
}
int connect(int fd, const struct sockaddr *, socklen_t) {
    std::lock_guard l(g_m);
    auto           &c = g_conns.at(fd);
    if (c.slow > 0) { errno = EINPROGRESS; return -1; }
    if (c.refused) { errno = ECONNREFUSED; return -1; }
    c.connected = true;
    return 0;
}
int getaddrinfo(const char *, const char *, const struct addrinfo *, struct addrinfo **res) {
    if (g_noHost) return EAI_NONAME;
    auto *a    = static_cast<addrinfo *>(calloc(1, sizeof(addrinfo)));
    a->ai_addr = static_cast<sockaddr *>(calloc(1, sizeof(sockaddr_storage)));
    *res       = a;
    return 0;
}
void freeaddrinfo(struct addrinfo *a) noexcept { if (a) { free(a->ai_addr); free(a); } }
ssize_t recv(int fd, void *buf, size_t n, int) {
    std::lock_guard l(g_m);
    auto           &c = g_conns.at(fd);
    if (c.closed || !c.connected) c.misuse = "reads from a socket that is not connected";
    if (c.in.empty()) {
        if (c.resetByPeer) { errno = ECONNRESET; return -1; }
        if (c.peerClosed) return 0; // errno keeps its value
        errno = EAGAIN;
        return -1;
    }
    n = std::min(n, c.in.size());
    std::memcpy(buf, c.in.data(), n);
    c.in.erase(0, n);
    return static_cast<ssize_t>(n);
}
ssize_t send(int fd, const void *buf, size_t n, int) {
    std::lock_guard l(g_m);
    auto           &c = g_conns.at(fd);
    if (c.closed || !c.connected) c.misuse = "writes to a socket that is not connected";
    if (c.resetByPeer) { errno = EPIPE; return -1; }
    if (c.chunk) {
        c.stalled = !c.stalled;
        if (c.stalled) { errno = EAGAIN; return -1; }
        n = std::min(n, c.chunk);
    }
    c.out.append(static_cast<const char *>(buf), n);
    return static_cast<ssize_t>(n);
}
int setsockopt(int, int, int, const void *, socklen_t) noexcept { return 0; }
int getsockopt(int, int, int, void *v, socklen_t *) noexcept { *static_cast<int *>(v) = ECONNREFUSED; return 0; }
int close(int fd) {
    if (fd < 2000) return static_cast<int>(syscall(SYS_close, fd));
    std::lock_guard l(g_m);
    auto           &c = g_conns.at(fd);
    if (c.closed) c.misuse = "closes a socket twice";
    c.closed = true;
    return 0;
}
int fcntl(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    if (fd >= 2000) return 0;
    return static_cast<int>(syscall(SYS_fcntl, fd, cmd, a));
}
int poll(struct pollfd *p, nfds_t n, int) {
    std::unique_lock l(g_m);
    park(l);
    int k = 0;
    for (nfds_t i = 0; i < n; i++) {
        p[i].revents = 0;
        auto &c      = g_conns.at(p[i].fd);
        if (!c.connected && c.slow > 0) { // not established yet
            if (--c.slow > 1) continue;
            c.slow = 0;
            if (c.refused) p[i].revents = POLLERR | POLLOUT;
        }
        if ((p[i].events & POLLIN) && c.connected && (!c.in.empty() || c.peerClosed || c.resetByPeer)) p[i].revents |= POLLIN;
        if (p[i].events & POLLOUT) p[i].revents |= POLLOUT;
        if (!c.connected && (p[i].events & POLLOUT)) p[i].revents |= POLLOUT;
        if (p[i].revents) k++;
    }
    g_idle = k ? 0 : g_idle + 1;
    return k;
}
int clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) {
    std::unique_lock l(g_m);
    park(l);
    g_idle++;
    return 0;
}
int nanosleep(const struct timespec *, struct timespec *) { return clock_nanosleep(0, 0, nullptr, nullptr); }
}
namespace {
using KV = std::vector<std::pair<std::string, std::string>>;
void le(std::string &s, uint32_t v) { for (int i = 0; i < 4; i++) s.push_back(static_cast<char>(v >> (8 * i))); }
std::string frame(int type, int flags, int stream, const std::string &payload) {
    std::string s;
    s.push_back(static_cast<char>(type));
    s.push_back(static_cast<char>(flags));
    le(s, static_cast<uint32_t>(stream));
    le(s, static_cast<uint32_t>(payload.size()));
    return s + payload;
}
std::string response(int stream, const std::string &status, bool end, const KV &h = {}) {
    std::string p = std::string(":status") + '\0' + status + '\0';
    for (auto &[n, v] : h) p += n + '\0' + v + '\0';
    return frame(1, end, stream, p);
}
// the server's view of a connection
struct Stream { std::map<std::string, std::string> h; std::string body; bool ended = false, reset = false, answered = false; };
struct Peer {
    int                   fd;
    size_t                parsed = 0;
    std::map<int, Stream> st;
    void parse() {
        std::lock_guard l(g_m);
        auto           &o = g_conns.at(fd).out;
        while (o.size() - parsed >= 10) {
            auto b = [&](size_t i) { return static_cast<unsigned char>(o[parsed + i]); };
            auto u = [&](size_t i) { return b(i) | b(i + 1) << 8 | b(i + 2) << 16 | static_cast<uint32_t>(b(i + 3)) << 24; };
            int      type = b(0), fl = b(1), id = static_cast<int>(u(2));
            uint32_t len = u(6);
            if (type > 4 || len > 100000) seq::fail("the bytes the client sent are corrupted");
            if (o.size() - parsed - 10 < len) return;
            std::string p = o.substr(parsed + 10, len);
            parsed += 10 + len;
            if (type == 4) continue;
            if (type == 3) { st[id].reset = true; continue; }
            if (type == 1) {
                if (st.contains(id)) seq::fail("stream opened twice");
                for (size_t i = 0; i < p.size();) {
                    std::string n = p.c_str() + i;
                    i += n.size() + 1;
                    std::string v = p.c_str() + i;
                    i += v.size() + 1;
                    st[id].h[n] = v;
                }
            } else
                st[id].body += p;
            if (fl & 1) st[id].ended = true;
        }
    }
};
struct Sys {
    std::unique_ptr<client::RestClient> cl;
    std::map<int, Peer>                 peers;
    struct Call { int cmd; std::string id, topic, data, error; };
    std::map<int, std::vector<Call>>    calls; // per callback
    std::string                         log;
    std::vector<std::pair<int, int>>    order; // streams (fd, id) in order of arrival
    Sys() {
        std::lock_guard l(g_m);
        g_conns.clear();
        g_connectMode = 0;
        g_chunk       = 0;
        g_noHost = g_free = g_go = g_parked = false;
        g_next        = 2000;
        nghttp2fake::maxFrame = 16384;
    }
    void start() {
        cl = std::make_unique<client::RestClient>();
        settle();
    }
    ~Sys() { stop(); }
    void stop() {
        if (!cl) return;
        {
            std::lock_guard l(g_m);
            g_free = true;
            g_cv.notify_all();
        }
        cl->stop();
        cl.reset();
    }
    void settle() { // until the client has nothing to do any more
        for (int i = 0; i < 300; i++) {
            std::unique_lock l(g_m);
            g_cv.wait(l, [] { return g_parked && !g_go; });
            if (i && g_idle >= 2) break;
            if (i == 0) g_idle = 0;
            if (i == 299) seq::fail(log + ": the client never comes to rest");
            g_go = true;
            g_cv.notify_all();
        }
        seq::transition();
        for (auto &[fd, c] : g_conns) {
            if (!c.misuse.empty()) seq::fail(log + ": the client " + c.misuse);
            peers.try_emplace(fd, Peer{ fd, 0, {} });
        }
        for (auto &[fd, p] : peers) {
            p.parse();
            for (auto &[id, s] : p.st)
                if (s.ended && std::ranges::find(order, std::pair(fd, id)) == order.end()) order.emplace_back(fd, id);
        }
    }
    client::Command command(mdp::Command c, const std::string &topic, int cb, const std::string &data = "") {
        client::Command x;
        x.command         = c;
        x.topic           = URI<>(topic);
        x.clientRequestID = IoBuffer(("id" + std::to_string(cb)).c_str(), 2 + std::to_string(cb).size());
        if (!data.empty()) x.data = IoBuffer(data.data(), data.size());
        x.callback = [this, cb](const mdp::Message &m) { calls[cb].push_back({ static_cast<int>(m.command), std::string(m.clientRequestID.asString()), std::string(m.topic.str()), std::string(m.data.asString()), m.error }); };
        return x;
    }
    bool usable(int fd) { auto &c = g_conns.at(fd); return c.connected && !c.closed && !c.peerClosed && !c.resetByPeer; }
    void arrive(int fd, const std::string &bytes) { std::lock_guard l(g_m); g_conns.at(fd).in += bytes; }
    static std::string show(const std::vector<Call> &v) {
        std::string s = std::to_string(v.size()) + " calls";
        for (auto &c : v) s += " {" + std::to_string(c.cmd) + " " + c.id + " data " + seq::quote(c.data.substr(0, 40)) + " error " + seq::quote(c.error) + "}";
        return s;
    }
};
std::string pat(size_t n) { std::string s; for (size_t i = 0; i < n; i++) s.push_back(static_cast<char>('a' + (i * 7 + i / 251) % 26)); return s; }

// ---------------------------------------------------------------- requests
struct Reqs : Sys {
    struct R { int cb; std::string path, body; bool set; int fd = -1, stream = -1; bool done = false; std::string expectData; int expectError = 0; };
    std::vector<R> r;
    int            nextCb = 0, serial = 0;
    void issue(bool set, const std::string &path, const std::string &body = "") {
        R x{ nextCb++, path + "?q=" + std::to_string(nextCb), body, set };
        log += (set ? " SET" : " GET") + std::to_string(x.cb);
        cl->request(command(set ? mdp::Command::Set : mdp::Command::Get, "http://server:8080" + x.path, x.cb, body));
        settle();
        r.push_back(x);
        find();
    }
    void find() { // every request must have reached a server exactly once
        for (auto &x : r) {
            if (x.fd >= 0 || x.done) continue;
            int n = 0;
            for (auto &[fd, p] : peers)
                for (auto &[id, s] : p.st)
                    if (s.h[":path"] == x.path && s.ended) {
                        n++;
                        x.fd     = fd;
                        x.stream = id;
                        if (s.h[":method"] != (x.set ? "POST" : "GET") || s.body != x.body || s.h["accept"] != "application/json") seq::fail(log + ": request " + std::to_string(x.cb) + " arrives altered");
                    }
            if (n != 1) seq::fail(log + ": request " + std::to_string(x.cb) + " reaches the server " + std::to_string(n) + " times");
        }
    }
    void finish(R &x, const std::string &data, int error) { x.done = true; x.expectData = data; x.expectError = error; }
    void verify() {
        for (auto &x : r) {
            auto &v = calls[x.cb];
            if (!x.done) {
                if (!v.empty()) seq::fail(log + ": request " + std::to_string(x.cb) + " is answered out of nowhere: " + show(v));
                continue;
            }
            if (v.size() != 1) seq::fail(log + ": callback of request " + std::to_string(x.cb) + ": " + show(v));
            if (v[0].id != "id" + std::to_string(x.cb) || v[0].cmd != static_cast<int>(mdp::Command::Final)) seq::fail(log + ": callback of request " + std::to_string(x.cb) + " got " + show(v));
            if (x.expectError == 0 && (v[0].data != x.expectData || !v[0].error.empty())) seq::fail(log + ": request " + std::to_string(x.cb) + " answered with " + seq::quote(x.expectData.substr(0, 40)) + ", callback got " + show(v));
            if (x.expectError == 1 && v[0].error != x.expectData) seq::fail(log + ": request " + std::to_string(x.cb) + " answered with error " + seq::quote(x.expectData) + ", callback got " + show(v));
            if (x.expectError == 2 && v[0].error.empty()) seq::fail(log + ": the failure of request " + std::to_string(x.cb) + " is not reported: " + show(v));
        }
    }
    std::vector<size_t> open() { std::vector<size_t> o; for (size_t i = 0; i < r.size(); i++) if (!r[i].done && r[i].fd >= 0) o.push_back(i); return o; }
    bool step(int op) {
        auto o = open();
        switch (op) {
        case 0: issue(false, "/a"); break;
        case 1: issue(true, "/b", "body" + std::string(1, '\0') + std::to_string(serial++)); break;
        case 2: case 3: case 4: case 5: case 6: case 7: { // the server answers one of the requests
            if (o.empty()) return false;
            auto       &x = r[o[static_cast<size_t>(seq::choose(static_cast<int>(o.size())))]];
            std::string d = "answer" + std::to_string(serial++);
            log += " answer" + std::to_string(op) + "(" + std::to_string(x.cb) + ")";
            switch (op) {
            case 2: arrive(x.fd, response(x.stream, "200", false, { { "x-opencmw-topic", "/svc?t=1" }, { "x-opencmw-service-name", "/svc" } }) + frame(0, 0, x.stream, d.substr(0, 3)) + frame(0, 1, x.stream, d.substr(3))); finish(x, d, 0); break;
            case 3: arrive(x.fd, response(x.stream, "500", false) + frame(0, 1, x.stream, d)); finish(x, d, 1); break;
            case 4: arrive(x.fd, response(x.stream, "204", true)); finish(x, "", 0); break;
            case 5: arrive(x.fd, frame(3, 0, x.stream, "")); finish(x, "", 2); break;                                              // reset
            case 6: arrive(x.fd, response(x.stream, "200", false, { { "x-opencmw-topic", "::not a topic::" } }) + frame(0, 1, x.stream, d)); finish(x, "", 2); break; // unusable head
            case 7: arrive(x.fd, response(x.stream, "302", true, { { "location", "nowhere" } })); finish(x, "", 2); break;          // redirect to nowhere
            }
            settle();
            break;
        }
        case 8: case 9: { // the connection is closed or breaks
            int fd = -1;
            for (auto &[f, c] : g_conns) if (usable(f)) fd = f;
            if (fd < 0) return false;
            log += op == 8 ? " CLOSE" : " RESET";
            { std::lock_guard l(g_m); (op == 8 ? g_conns.at(fd).peerClosed : g_conns.at(fd).resetByPeer) = true; }
            for (auto &x : r) if (!x.done && x.fd == fd) finish(x, "", 2);
            settle();
            SEQ_CHECK(g_conns.at(fd).closed, log + ": the socket of a lost connection is not closed");
            break;
        }
        case 10: { // an endpoint that cannot be used
            static const std::vector<std::string> bad{ "foo://server/x", "http:///x", "/x", "nohost" };
            int k = seq::choose(static_cast<int>(bad.size()));
            R   x{ nextCb++, "", "", seq::choose(2) == 1 };
            log += " BAD" + std::to_string(k);
            g_noHost = k == 3;
            cl->request(command(x.set ? mdp::Command::Set : mdp::Command::Get, k == 3 ? "http://unknown.host:1/x" : bad[static_cast<size_t>(k)], x.cb));
            finish(x, "", 2);
            r.push_back(x);
            settle();
            g_noHost = false;
            break;
        }
        case 11: { // the next connection is refused, at once or later
            bool any = false;
            for (auto &[f, c] : g_conns) any |= usable(f);
            if (any) return false;
            g_connectMode = 2;
            R x{ nextCb++, "/refused", "", false };
            log += " REFUSED";
            cl->request(command(mdp::Command::Get, "http://server:8080/refused", x.cb));
            finish(x, "", 2);
            r.push_back(x);
            settle();
            g_connectMode = 0;
            break;
        }
        }
        verify();
        seq::state(log);
        return true;
    }
};
void requests(int depth) {
    Reqs s;
    g_connectMode = seq::choose(2);
    s.start();
    int start = seq::choose(3);
    if (start == 1) s.step(0);
    if (start == 2) { s.step(1); s.step(0); }
    for (int i = 0; i < depth; i++)
        if (!s.step(seq::choose(12))) break;
    s.stop();
    s.verify();
}
void transfers() { // large bodies in both directions over a socket that takes little at a time
    static const std::vector<size_t> sizes{ 0, 1, 2047, 2048, 2049, 5000, 40000 };
    const size_t                     up = seq::chooseFrom(sizes), down = seq::chooseFrom(sizes);
    Reqs                             s;
    g_chunk               = std::array<size_t, 3>{ 0, 700, 1500 }[static_cast<size_t>(seq::choose(3))];
    nghttp2fake::maxFrame = seq::choose(2) ? 16384 : 900;
    const size_t piece    = std::array<size_t, 3>{ 2048, 100000, 2000 }[static_cast<size_t>(seq::choose(3))];
    s.start();
    s.log = " up " + std::to_string(up) + " down " + std::to_string(down) + " chunk " + std::to_string(g_chunk) + " piece " + std::to_string(piece);
    s.issue(true, "/big", pat(up));
    auto       &x = s.r[0];
    std::string all = response(x.stream, "200", false);
    for (size_t p = 0; p < down || p == 0; p += 9000) all += frame(0, p + 9000 >= down, x.stream, pat(down).substr(p, 9000));
    for (size_t p = 0; p < all.size(); p += piece) { s.arrive(x.fd, all.substr(p, piece)); s.settle(); }
    s.finish(x, pat(down), 0);
    s.verify();
    s.step(0);
    s.stop();
    seq::state(s.log);
}
// ---------------------------------------------------------------- subscriptions
struct Subs : Sys {
    struct T { std::string path; std::vector<int> cbs; bool on = false; std::string polling; int fd = -1, stream = -1; };
    std::vector<T>                          t{ { "/A" }, { "/B?x=1" } };
    std::map<int, std::vector<std::string>> want; // notifications per callback
    std::set<int>                           mayFail;
    int                                     nextCb = 0, serial = 0;
    size_t                                  seen = 0;
    static std::string                      pathOf(const std::string &p) { return p.substr(0, p.find("LongPollingIdx")); }
    void expectPoll(T &x, const std::string &idx) { // exactly one new request: the poll of index idx
        settle();
        if (order.size() != seen + 1) seq::fail(log + ": " + std::to_string(order.size() - seen) + " new requests instead of a poll of " + x.path + " index " + idx);
        auto [fd, id] = order[seen++];
        auto p        = peers.at(fd).st[id].h[":path"];
        const std::string w1 = x.path + (x.path.find('?') == std::string::npos ? "?" : "&") + "LongPollingIdx=" + idx;
        const auto q = x.path.find('?');
        const std::string w2 = q == std::string::npos ? w1 : x.path.substr(0, q) + "?LongPollingIdx=" + idx + "&" + x.path.substr(q + 1);
        if (p != w1 && p != w2) seq::fail(log + ": polled " + p + " instead of " + w1);
        x.fd      = fd;
        x.stream  = id;
        x.polling = idx;
    }
    void nothingNew() {
        settle();
        if (order.size() != seen) seq::fail(log + ": an unexpected request " + peers.at(order[seen].first).st[order[seen].second].h[":path"]);
    }
    void verify() {
        for (auto &[cb, v] : calls) {
            std::vector<std::string> got;
            for (auto &c : v) {
                if (!c.error.empty() && mayFail.contains(cb)) continue;
                if (!c.error.empty()) seq::fail(log + ": callback " + std::to_string(cb) + " gets an unexpected error " + c.error);
                if (c.cmd != static_cast<int>(mdp::Command::Notify)) seq::fail(log + ": notification delivered as command " + std::to_string(c.cmd));
                got.push_back(c.data);
            }
            if (got != want[cb]) seq::fail(log + ": callback " + std::to_string(cb) + " got " + show(v) + " instead of " + std::to_string(want[cb].size()) + " notifications");
        }
        for (auto &[cb, v] : want)
            if (!v.empty() && !calls.contains(cb)) seq::fail(log + ": callback " + std::to_string(cb) + " was never called");
    }
    void gone(int fd) {
        for (auto &x : t)
            if (x.on && x.fd == fd) { for (int c : x.cbs) mayFail.insert(c); x.on = false; x.cbs.clear(); }
    }
    bool step(int op) {
        auto &x = t[static_cast<size_t>(op % 2)];
        switch (op / 2) {
        case 0: { // subscribe
            int cb = nextCb++;
            log += " subscribe" + std::to_string(cb) + x.path;
            cl->request(command(mdp::Command::Subscribe, "http://server:8080" + x.path, cb));
            bool first = !x.on;
            x.on       = true;
            x.cbs.push_back(cb);
            if (first) expectPoll(x, "Next");
            else nothingNew();
            break;
        }
        case 1: { // unsubscribe
            log += " unsubscribe" + x.path;
            cl->request(command(mdp::Command::Unsubscribe, "http://server:8080" + x.path, 1000));
            nothingNew();
            if (x.on) SEQ_CHECK(peers.at(x.fd).st[x.stream].reset, log + ": the pending poll is not cancelled");
            x.on = false;
            x.cbs.clear();
            break;
        }
        case 2: { // the server answers the poll: redirect, or the notification
            if (!x.on) return false;
            if (x.polling == "Next") {
                std::string idx = std::to_string(7 + seq::choose(2) * 93);
                log += " redirect" + idx;
                arrive(x.fd, response(x.stream, "302", true, { { "location", x.path + (x.path.find('?') == std::string::npos ? "?" : "&") + "LongPollingIdx=" + idx } }));
                expectPoll(x, idx);
            } else {
                std::string d = "note" + std::to_string(serial++);
                log += " notify" + x.path + x.polling;
                arrive(x.fd, response(x.stream, "200", false, { { "x-opencmw-topic", x.path }, { "x-opencmw-long-polling-idx", x.polling } }) + frame(0, 1, x.stream, d));
                for (int c : x.cbs) want[c].push_back(d);
                expectPoll(x, std::to_string(std::stoul(x.polling) + 1));
            }
            break;
        }
        case 3: { // a poll times out at the server / the index is gone
            if (!x.on || x.polling == "Next") return false;
            if (seq::choose(2)) {
                log += " timeout" + x.path;
                arrive(x.fd, response(x.stream, "504", true, { { "x-opencmw-long-polling-idx", x.polling } }));
                expectPoll(x, x.polling);
            } else {
                log += " gone" + x.path;
                std::string idx = std::to_string(std::stoul(x.polling) + 50);
                arrive(x.fd, response(x.stream, "302", true, { { "location", x.path + (x.path.find('?') == std::string::npos ? "?" : "&") + "LongPollingIdx=" + idx } }));
                expectPoll(x, idx);
            }
            break;
        }
        case 4: { // an answer to a request in between (0), the connection is lost (1)
            if (op % 2 == 0) {
                int cb = nextCb++;
                log += " GET";
                cl->request(command(mdp::Command::Get, "http://server:8080/A", cb));
                settle();
                SEQ_CHECK(order.size() == seen + 1, log + ": the request does not reach the server once");
                auto [fd, id] = order[seen++];
                arrive(fd, response(id, "200", false) + frame(0, 1, id, "plain"));
                nothingNew();
                SEQ_CHECK(calls[cb].size() == 1 && calls[cb][0].data == "plain", log + ": request answered with " + show(calls[cb]));
                calls.erase(cb);
            } else {
                int fd = -1;
                for (auto &[f, c] : g_conns) if (usable(f)) fd = f;
                if (fd < 0) return false;
                log += " CLOSE";
                { std::lock_guard l(g_m); g_conns.at(fd).peerClosed = true; }
                gone(fd);
                nothingNew();
            }
            break;
        }
        }
        verify();
        seq::state(log);
        return true;
    }
};
void subscriptions(int depth) {
    Subs s;
    s.start();
    int start = seq::choose(3);
    if (start) { s.step(0); s.step(4); }
    if (start == 2) { s.step(4); s.step(1); }
    for (int i = 0; i < depth; i++)
        if (!s.step(seq::choose(10))) break;
    s.stop();
    s.verify();
}
const bool reg = [] {
    seq::add("C53_requests", [] { requests(seq::thorough() ? 4 : 3); });
    seq::add("C53_transfers", transfers);
    seq::add("C53_subscriptions", [] { subscriptions(seq::thorough() ? 5 : 4); });
    return true;
}();
} // namespace
