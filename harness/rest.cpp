// C49-C51: the real REST server (HTTP/2 part) over a stand-in for libnghttp2 and recorded socket calls: every way the
// socket splits the byte streams, every history of requests, replies and cancellations, every long-polling history.
#include <functional>
#include <map>
#include <set>
#include <cstring>
#include <deque>
#include <string>
#include <vector>
#include <cerrno>
#include <cstdarg>
#include <memory>
#include <filesystem>
#include <fstream>
#include <unistd.h>
#include <sys/syscall.h>
#include <fcntl.h>
#include <majordomo/RestServer.hpp>
#include "seq.h"
using namespace opencmw;
namespace {
constexpr int kListen = 1000;
struct Conn {
    std::string           in;               // bytes that arrived at the server
    std::string           out;              // bytes the server wrote
    bool                  peerClosed = false, closed = false;
    int                   error      = 0;   // recv fails with this
    int                   sendError  = 0;
    std::function<long(size_t)> sendPolicy; // <0: would block
    int                   recvs = 0;
};
std::map<int, Conn> g_conns;
std::deque<int>     g_accept;
bool                g_overread = false;
} // namespace
extern "C" {
int accept(int fd, struct sockaddr *, socklen_t *) noexcept(false) {
    if (fd == kListen && !g_accept.empty()) { int c = g_accept.front(); g_accept.pop_front(); return c; }
    errno = EAGAIN;
    return -1;
}
ssize_t recv(int fd, void *buf, size_t n, int) {
    auto &c = g_conns.at(fd);
    c.recvs++;
    if (c.closed) seq::fail("the server reads from a socket it closed");
    if (c.in.empty()) {
        if (c.error) { errno = c.error; return -1; }
        if (c.peerClosed) return 0; // errno keeps whatever value it had
        errno = EAGAIN;
        return -1;
    }
    n = std::min(n, c.in.size());
    std::memcpy(buf, c.in.data(), n);
    c.in.erase(0, n);
    return static_cast<ssize_t>(n);
}
ssize_t send(int fd, const void *buf, size_t n, int) {
    auto &c = g_conns.at(fd);
    if (c.closed) seq::fail("the server writes to a socket it closed");
    if (c.sendError) { errno = c.sendError; return -1; }
    long k = c.sendPolicy ? c.sendPolicy(n) : static_cast<long>(n);
    if (k < 0) { errno = EAGAIN; return -1; }
    c.out.append(static_cast<const char *>(buf), static_cast<size_t>(k));
    return k;
}
int setsockopt(int, int, int, const void *, socklen_t) noexcept { return 0; }
int close(int fd) {
    if (auto it = g_conns.find(fd); it != g_conns.end()) {
        if (it->second.closed) seq::fail("a socket is closed twice");
        it->second.closed = true;
        return 0;
    }
    if (fd == kListen) return 0;
    return static_cast<int>(syscall(SYS_close, fd));
}
int fcntl(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    if (fd >= kListen) return 0;
    return static_cast<int>(syscall(SYS_fcntl, fd, cmd, a));
}
}
namespace {
using RS      = opencmw::majordomo::detail::rest::RestServer;
using Message = mdp::BasicMessage<mdp::MessageFormat::WithSourceId>;
using KV      = std::vector<std::pair<std::string, std::string>>;
void le(std::string &s, uint32_t v) { for (int i = 0; i < 4; i++) s.push_back(static_cast<char>(v >> (8 * i))); }
std::string frame(int type, int flags, int stream, const std::string &payload) {
    std::string s;
    s.push_back(static_cast<char>(type));
    s.push_back(static_cast<char>(flags));
    le(s, static_cast<uint32_t>(stream));
    le(s, static_cast<uint32_t>(payload.size()));
    return s + payload;
}
std::string headers(int stream, const std::string &method, const std::string &path, bool end, const KV &extra = {}) {
    std::string p;
    auto        add = [&](const std::string &n, const std::string &v) { p += n + '\0' + v + '\0'; };
    add(":method", method);
    add(":path", path);
    for (auto &[n, v] : extra) add(n, v);
    return frame(1, end, stream, p);
}
std::string data(int stream, const std::string &d, bool end) { return frame(0, end, stream, d); }
std::string rst(int stream) { return frame(3, 0, stream, ""); }

struct Resp {
    KV          head;
    std::string body;
    bool        gotHead = false, complete = false, reset = false;
    std::string h(const std::string &n) const {
        std::string r = "<none>";
        int         k = 0;
        for (auto &[a, b] : head)
            if (a == n) { r = b; k++; }
        if (k > 1) seq::fail("header " + n + " sent twice");
        return r;
    }
    std::string str() const {
        std::string s = complete ? "" : "(incomplete) ";
        for (auto &[a, b] : head) s += a + "=" + b + " ";
        return s + "body=" + seq::quote(body.size() > 80 ? body.substr(0, 80) : body);
    }
};
// the HTTP client at the other end of a connection
struct Client {
    int                 fd;
    std::map<int, Resp> resp;
    size_t              parsed = 0;
    int                 next   = 1;
    explicit Client(int f) : fd(f) {}
    int  id() { int i = next; next += 2; return i; }
    void parse() {
        auto &o = g_conns.at(fd).out;
        while (o.size() - parsed >= 10) {
            auto b = [&](size_t i) { return static_cast<unsigned char>(o[parsed + i]); };
            auto u = [&](size_t i) { return b(i) | b(i + 1) << 8 | b(i + 2) << 16 | static_cast<uint32_t>(b(i + 3)) << 24; };
            int      type = b(0), fl = b(1), st = static_cast<int>(u(2));
            uint32_t len = u(6);
            if (type > 4 || len > 100000) seq::fail("the bytes the server sent are corrupted");
            if (o.size() - parsed - 10 < len) return;
            std::string p = o.substr(parsed + 10, len);
            parsed += 10 + len;
            if (type == 4) continue;
            auto &r = resp[st];
            if (type == 3) { r.reset = true; continue; }
            if (r.complete) seq::fail("stream " + std::to_string(st) + " is answered twice");
            if (type == 1) {
                if (r.gotHead) seq::fail("two responses on one stream");
                r.gotHead = true;
                for (size_t i = 0; i < p.size();) {
                    std::string n = p.c_str() + i;
                    i += n.size() + 1;
                    std::string v = p.c_str() + i;
                    i += v.size() + 1;
                    r.head.emplace_back(n, v);
                }
                if (r.head.empty() || r.head[0].first != ":status") seq::fail(":status is not the first header");
            } else {
                if (!r.gotHead) seq::fail("body before head");
                r.body += p;
            }
            if (fl & 1) r.complete = true;
        }
    }
    Resp take(int st) { Resp r = resp[st]; resp.erase(st); return r; }
};
struct Server {
    RS                                   rs;
    std::vector<std::unique_ptr<Client>> cl;
    std::vector<Message>                 msgs;
    int                                  nextFd = 1001;
    Server() {
        g_conns.clear();
        g_accept.clear();
        nghttp2fake::maxFrame = 16384;
        rs._tcpServerSocket.fd = kListen;
    }
    ~Server() { rs._tcpServerSocket.fd = -1; }
    Client &connect() {
        int fd = nextFd++;
        g_conns[fd];
        g_accept.push_back(fd);
        call(kListen, true, false);
        cl.push_back(std::make_unique<Client>(fd));
        io();
        return *cl.back();
    }
    void call(int fd, bool r, bool w) {
        try {
            for (auto &m : rs.processReadWrite(fd, r, w)) msgs.push_back(std::move(m));
        } catch (const seq::Violation &) { throw; } catch (const std::exception &e) { seq::fail(std::string("exception leaves the REST server: ") + e.what()); }
        seq::transition();
    }
    short events(int fd) {
        std::vector<zmq_pollitem_t> it;
        rs.populatePollerItems(it);
        short e = 0;
        int   n = 0;
        for (auto &i : it)
            if (i.fd == fd) { e = i.events; n++; }
        if (n > 1) seq::fail("a socket is polled twice");
        return e;
    }
    bool alive(int fd) { return events(fd) != 0; }
    bool readable(int fd) { auto &c = g_conns.at(fd); return !c.in.empty() || c.peerClosed || c.error; }
    // the poll loop of the broker, as long as something can be done
    void io(int limit = 400) {
        bool again = true;
        while (again && limit-- > 0) {
            again = false;
            for (auto &c : cl) {
                short e = events(c->fd);
                bool  r = (e & ZMQ_POLLIN) && readable(c->fd), w = (e & ZMQ_POLLOUT) != 0;
                if (r || w) { call(c->fd, r, w); again = true; }
            }
        }
        if (limit <= 0) seq::fail("the server never stops wanting to read or write");
        for (auto &c : cl) c->parse();
    }
    void arrive(Client &c, const std::string &bytes) { g_conns.at(c.fd).in += bytes; }
    std::vector<Message> take() { auto m = std::move(msgs); msgs.clear(); return m; }
};
std::string pat(size_t n) { std::string s; for (size_t i = 0; i < n; i++) s.push_back(static_cast<char>('a' + (i * 7 + i / 251) % 26)); return s; }

// ---------------------------------------------------------------- C49
majordomo::rest::Handler fixedHandler(const std::string &path, const std::string &body, int kind) {
    return { "GET", path, [body = std::make_shared<std::string>(body), kind](const majordomo::rest::Request &) {
                majordomo::rest::Response r;
                r.code = 200;
                r.headers.emplace_back("content-type", "text/plain");
                if (kind == 0) r.body = IoBuffer(body->data(), body->size());
                else if (kind == 1) r.bodyView = { reinterpret_cast<const uint8_t *>(body->data()), body->size() };
                else r.bodyReader = [body, pos = size_t(0), chunk = size_t(kind)](std::span<uint8_t> b) mutable -> std::expected<majordomo::rest::Response::ReadStatus, std::string> {
                    size_t n = std::min({ b.size(), body->size() - pos, chunk });
                    std::memcpy(b.data(), body->data() + pos, n);
                    pos += n;
                    return majordomo::rest::Response::ReadStatus{ n, pos < body->size() };
                };
                return r;
            } };
}
void writePatterns() {
    static const std::vector<size_t> sizes{ 0, 1, 50, 4085, 4096, 5000, 9000, 40000 };
    const size_t                     size  = seq::chooseFrom(sizes);
    const int                        kind  = std::array{ 0, 1, 3000 }[static_cast<size_t>(seq::choose(3))];
    Server                           s;
    nghttp2fake::maxFrame = std::array<size_t, 3>{ 16384, 4096, 700 }[static_cast<size_t>(seq::choose(3))];
    s.rs.setHandlers({ fixedHandler("/a", pat(size), kind), fixedHandler("/b", pat(size / 2 + 3), 0) });
    auto &c = s.connect();
    auto &o = s.connect();
    const bool second = seq::choose(2);
    int        a = c.id(), b = 0, decisions = 0, blocked = 0;
    const int  depth = seq::thorough() ? 6 : 4;
    g_conns.at(c.fd).sendPolicy = [&](size_t n) -> long {
        if (n == 0) seq::fail("send() of nothing");
        if (decisions++ >= depth) return static_cast<long>(n);
        switch (seq::choose(n > 2 ? 4 : 2)) {
        case 0: return static_cast<long>(n);
        case 1:
            if (blocked++ >= 3) return 1;
            return -1;
        case 2: return 1;
        default: return static_cast<long>(n / 2 + 1);
        }
    };
    s.arrive(c, headers(a, "GET", "/a", true));
    if (second) {
        b = c.id();
        s.arrive(c, headers(b, "GET", "/b", true));
    }
    s.io();
    int x = o.id();
    s.arrive(o, headers(x, "GET", "/b", true));
    s.io();
    const std::string what = std::to_string(size) + " bytes, body kind " + std::to_string(kind) + ": ";
    if (!s.alive(c.fd)) seq::fail(what + "the connection is dropped although the peer is there");
    auto expect = [&](Client &k, int st, const std::string &body) {
        auto r = k.take(st);
        if (!r.complete || r.h(":status") != "200" || r.body != body) seq::fail(what + "the response arrives as " + r.str() + " (" + std::to_string(r.body.size()) + " of " + std::to_string(body.size()) + " bytes)");
    };
    expect(c, a, pat(size));
    if (second) expect(c, b, pat(size / 2 + 3));
    expect(o, x, pat(size / 2 + 3));
    if (!c.resp.empty() || !o.resp.empty()) seq::fail("a response nobody asked for");
    seq::state(what + std::to_string(decisions) + "/" + std::to_string(blocked));
}
void readSplits() {
    // one POST whose frames take exactly `total` bytes, followed by a GET, arriving in up to three pieces
    static const std::vector<size_t> totals{ 200, 1023, 1024, 1025, 2047, 2048, 3072, 5000 };
    const size_t                     total = seq::chooseFrom(totals);
    Server                           s;
    auto                            &c = s.connect();
    int                              a = c.id(), b = c.id();
    std::string                      h = headers(a, "POST", "/svc", false), g = headers(b, "GET", "/svc2", true);
    const std::string                body = pat(total - h.size() - 10 - g.size());
    std::string                      all  = h + data(a, body, true) + g;
    std::vector<size_t> cuts{ 0, 1, 5, 10, h.size(), h.size() + 9, h.size() + 10, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 3072, all.size() - 1, all.size() };
    std::erase_if(cuts, [&](size_t x) { return x > all.size(); });
    size_t c1 = seq::chooseFrom(cuts), c2 = seq::chooseFrom(cuts);
    if (c2 < c1) return;
    size_t      pos = 0;
    const int   stale = std::array{ 0, EAGAIN, ENOENT }[static_cast<size_t>(seq::choose(3))];
    const int   end   = seq::choose(3); // afterwards: nothing, the peer closes, the connection breaks
    const std::string what = std::to_string(all.size()) + " bytes cut at " + std::to_string(c1) + " and " + std::to_string(c2) + ": ";
    for (size_t to : { c1, c2, all.size() }) {
        if (to == pos) continue;
        s.arrive(c, all.substr(pos, to - pos));
        pos   = to;
        errno = stale;
        s.io();
    }
    if (!s.alive(c.fd)) seq::fail(what + "the connection is dropped although the peer is there");
    auto m = s.take();
    if (m.size() != 2) seq::fail(what + std::to_string(m.size()) + " requests reach the broker");
    if (m[0].command != mdp::Command::Set || m[0].serviceName != "/svc" || m[0].data.asString() != body) seq::fail(what + "the body arrives altered");
    if (m[1].command != mdp::Command::Get || m[1].serviceName != "/svc2" || !m[1].data.empty()) seq::fail(what + "the second request arrives altered");
    if (end) {
        if (end == 1) g_conns.at(c.fd).peerClosed = true;
        if (end == 2) g_conns.at(c.fd).error = ECONNRESET;
        errno = stale;
        s.call(c.fd, true, false);
        if (s.alive(c.fd)) seq::fail(what + "a connection the peer closed is kept");
        if (!g_conns.at(c.fd).closed) seq::fail(what + "the socket of a closed connection is not closed");
        // the replies nobody waits for any more are dropped without harm
        for (auto &x : m) { Message r; r.command = mdp::Command::Final; r.clientRequestID = IoBuffer(x.clientRequestID); r.data = IoBuffer("late", 4); s.rs.handleResponse(std::move(r)); }
        auto &o = s.connect();
        int   y = o.id();
        s.arrive(o, headers(y, "GET", "/svc3", true));
        s.io();
        auto n = s.take();
        if (n.size() != 1 || n[0].serviceName != "/svc3") seq::fail(what + "after a lost connection another client is not served");
    }
    seq::state(what + std::to_string(stale) + std::to_string(end));
}

// ---------------------------------------------------------------- C50
struct Hist {
    Server s;
    struct St { int conn, id; std::string method, path, body, accept; bool ended = false, sent = false, gone = false; };
    std::vector<St>                                        st;      // every stream ever opened
    struct Pend { int st; std::string reqId; };
    std::vector<Pend>                                      pend;    // messages handed to the broker and not answered
    std::vector<std::string>                               answered;
    std::string                                            log;
    int                                                    serial = 0;
    Hist() { s.connect(); s.connect(); }
    Client &c(int i) { return *s.cl[static_cast<size_t>(i)]; }
    static std::map<std::string, std::string> query(const std::string &q) {
        std::map<std::string, std::string> m;
        size_t p = 0;
        while (p < q.size()) {
            auto e = q.find('&', p);
            if (e == std::string::npos) e = q.size();
            auto kv = q.substr(p, e - p);
            auto eq = kv.find('=');
            auto dec = [](const std::string &x) {
                std::string r;
                for (size_t i = 0; i < x.size(); i++)
                    if (x[i] == '%' && i + 2 < x.size()) { r.push_back(static_cast<char>(std::stoi(x.substr(i + 1, 2), nullptr, 16))); i += 2; } else r.push_back(x[i]);
                return r;
            };
            m[dec(kv.substr(0, eq))] = eq == std::string::npos ? "" : dec(kv.substr(eq + 1));
            p = e + 1;
        }
        return m;
    }
    static std::pair<std::string, std::map<std::string, std::string>> topic(const std::string &t) {
        auto q = t.find('?');
        return { t.substr(0, q), q == std::string::npos ? std::map<std::string, std::string>{} : query(t.substr(q + 1)) };
    }
    // the requests that must now have reached the broker
    void expectMessages(const std::vector<int> &streams) {
        s.io();
        auto m = s.take();
        SEQ_CHECK(m.size() == streams.size(), log + ": " + std::to_string(m.size()) + " requests reach the broker instead of " + std::to_string(streams.size()));
        for (int k : streams) {
            auto &t  = st[static_cast<size_t>(k)];
            auto  want = topic(t.path == "/" ? "/mmi.service" : t.path);
            want.second["contentType"] = t.accept;
            bool  found = false;
            for (auto it = m.begin(); it != m.end(); ++it) {
                auto got = topic(it->topic.str());
                if (it->command == (t.method == "GET" ? mdp::Command::Get : mdp::Command::Set) && it->serviceName == want.first && got == want && it->data.asString() == t.body) {
                    std::string id(it->clientRequestID.asString());
                    for (auto &p : pend) SEQ_CHECK(p.reqId != id, log + ": two requests share the id " + id);
                    for (auto &p : answered) SEQ_CHECK(p != id, log + ": the id " + id + " is used again");
                    pend.push_back({ k, id });
                    m.erase(it);
                    found = true;
                    break;
                }
            }
            SEQ_CHECK(found, log + ": no request for " + t.method + " " + t.path + " with body " + seq::quote(t.body) + " reaches the broker" + (m.empty() ? "" : "; instead " + m[0].serviceName + " " + std::string(m[0].topic.str()) + " " + seq::quote(m[0].data.asString())));
            t.sent = true;
        }
    }
    void expectOnly(int k, const std::function<void(const Resp &)> &f) { // stream k (or none: -1) got a response, nobody else did
        s.io();
        for (size_t i = 0; i < st.size(); i++) {
            auto &t = st[i];
            auto  r = c(t.conn).take(t.id);
            if (static_cast<int>(i) == k) {
                SEQ_CHECK(r.complete, log + ": no complete response: " + r.str());
                f(r);
                t.gone = true;
            } else
                SEQ_CHECK(!r.gotHead && !r.reset, log + ": stream " + std::to_string(t.id) + " gets a response that is not its own: " + r.str());
        }
        for (auto &x : s.cl) SEQ_CHECK(x->resp.empty(), log + ": a response on a stream nobody opened");
        for (auto &x : s.cl) SEQ_CHECK(g_conns.at(x->fd).peerClosed || s.alive(x->fd), log + ": a connection is dropped");
    }
    void none() { expectMessages({}); expectOnly(-1, {}); }
    int open(int conn, const std::string &method, const std::string &path, bool end, const KV &extra = {}, const std::string &accept = "application/json") {
        int id = c(conn).id();
        st.push_back({ conn, id, method, path, "", accept, end });
        s.arrive(c(conn), headers(id, method, path, end, extra));
        return static_cast<int>(st.size()) - 1;
    }
    std::vector<int> uploads() { std::vector<int> r; for (size_t i = 0; i < st.size(); i++) if (!st[i].ended && !st[i].gone && !g_conns.at(c(st[i].conn).fd).peerClosed) r.push_back(static_cast<int>(i)); return r; }
    std::vector<int> openStreams() { std::vector<int> r; for (size_t i = 0; i < st.size(); i++) if (!st[i].gone && !g_conns.at(c(st[i].conn).fd).peerClosed) r.push_back(static_cast<int>(i)); return r; }
    void reply(size_t pi, bool error, bool again) {
        Pend    p = pend[pi];
        Message r;
        r.command         = mdp::Command::Final;
        r.serviceName     = "/reply.service";
        r.clientRequestID = IoBuffer(p.reqId.data(), p.reqId.size());
        r.topic           = URI<>("/reply?x=" + std::to_string(serial));
        std::string d     = "reply " + std::to_string(serial++);
        if (error) r.error = d;
        else r.data = IoBuffer(d.data(), d.size());
        Message copy(r);
        s.rs.handleResponse(std::move(r));
        pend.erase(pend.begin() + static_cast<long>(pi));
        answered.push_back(p.reqId);
        auto &t = st[static_cast<size_t>(p.st)];
        if (t.gone || g_conns.at(c(t.conn).fd).peerClosed) expectOnly(-1, {});
        else
            expectOnly(p.st, [&](const Resp &x) {
                SEQ_CHECK(x.h(":status") == (error ? "500" : "200") && x.body == d && x.h("content-length") == std::to_string(d.size()), log + ": reply " + seq::quote(d) + " arrives as " + x.str());
                SEQ_CHECK(x.h("x-opencmw-topic") == copy.topic.str() && x.h("x-opencmw-service-name") == "/reply.service", log + ": topic or service of the reply arrive as " + x.str());
            });
        if (again) { // the broker repeats itself
            s.rs.handleResponse(std::move(copy));
            expectOnly(-1, {});
        }
    }
    void step(int op) {
        switch (op) {
        case 0: case 1: {
            int k = open(op, "GET", op ? "/svc/b?x=1&y=%26" : "/svc", true);
            log += " GET" + std::to_string(op);
            expectMessages({ k });
            expectOnly(-1, {});
            break;
        }
        case 2: { open(0, "POST", "/up?z=2", false); log += " POST"; none(); break; }
        case 3: case 4: case 5: { // more of an upload: part, last part, an empty end
            auto u = uploads();
            if (u.empty()) return;
            int  k = u[static_cast<size_t>(seq::choose(static_cast<int>(u.size())))];
            auto &t = st[static_cast<size_t>(k)];
            std::string d = op == 5 ? "" : "part" + std::to_string(serial++) + std::string(1, '\0');
            t.body += d;
            t.ended = op != 3;
            log += op == 3 ? " DATA" : op == 4 ? " DATA-END" : " END";
            log += std::to_string(t.id);
            s.arrive(c(t.conn), data(t.id, d, t.ended));
            if (t.ended) expectMessages({ k });
            else expectMessages({});
            expectOnly(-1, {});
            break;
        }
        case 6: { // cancelled by the client
            auto u = openStreams();
            if (u.empty()) return;
            int k = u[static_cast<size_t>(seq::choose(static_cast<int>(u.size())))];
            auto &t = st[static_cast<size_t>(k)];
            log += " RST" + std::to_string(t.id);
            s.arrive(c(t.conn), rst(t.id));
            t.gone = t.ended = true;
            none();
            break;
        }
        case 7: case 8: case 9: {
            if (pend.empty()) return;
            size_t i = static_cast<size_t>(seq::choose(static_cast<int>(pend.size())));
            log += (op == 7 ? " REPLY" : op == 8 ? " ERROR" : " REPLY-TWICE") + pend[i].reqId;
            reply(i, op == 8, op == 9);
            expectMessages({});
            break;
        }
        case 10: { // several requests at once, the last still incomplete
            log += " GET+GET+POST";
            int a = open(0, "GET", "/one", true), b = open(0, "GET", "/two?q", true);
            open(0, "PUT", "/three", false);
            expectMessages({ a, b });
            expectOnly(-1, {});
            break;
        }
        case 11: { // not a request for a service
            static const std::vector<std::array<std::string, 2>> odd{ { "DELETE", "/svc" }, { "OPTIONS", "/svc" }, { "get", "/svc" }, { "GET", "/sv%zz?%" } };
            auto &o = odd[static_cast<size_t>(seq::choose(static_cast<int>(odd.size())))];
            int   k = open(0, o[0], o[1], true);
            log += " " + o[0] + o[1];
            expectMessages({});
            expectOnly(k, [&](const Resp &x) {
                SEQ_CHECK(o[0] == "OPTIONS" ? x.h(":status") == "204" && x.body.empty() : x.h(":status") == "500" || x.h(":status") == "404", log + ": answered with " + x.str());
            });
            break;
        }
        case 12: { // the other client goes away
            if (g_conns.at(c(1).fd).peerClosed) return;
            log += " CLOSE";
            g_conns.at(c(1).fd).peerClosed = true;
            none();
            SEQ_CHECK(!s.alive(c(1).fd), log + ": a closed connection is kept");
            break;
        }
        }
    }
};
void c50hist(int depth) {
    Hist h;
    int  start = seq::choose(3);
    if (start == 1) { h.step(2); h.step(0); }
    if (start == 2) { h.step(0); h.step(1); h.step(10); }
    for (int i = 0; i < depth; i++) {
        int op = seq::choose(13);
        if (op < 2 && g_conns.at(h.c(op).fd).peerClosed) return;
        size_t before = h.log.size();
        h.step(op);
        if (h.log.size() == before) return; // not possible in this situation
        seq::state(h.log);
    }
}
void formats() { // which format is asked for
    static const std::vector<std::string> kinds{ "", "application/json", "text/html", "application/octet-stream", "text/plain", "text/html,application/json", "application/xml, application/octet-stream ,text/html", " ,, text/html", "*/*" };
    auto ok = [](const std::string &m) { return m == "application/json" || m == "text/html" || m == "application/octet-stream"; };
    const std::string ct = seq::chooseFrom(kinds), ac = seq::chooseFrom(kinds), q = seq::chooseFrom(kinds);
    std::string want = "application/json";
    if (ok(ct)) want = ct;
    else if (ok(q)) want = q;
    else {
        size_t p = 0;
        while (p < ac.size()) {
            auto e = ac.find_first_of(" ,", p);
            if (e == std::string::npos) e = ac.size();
            if (ok(ac.substr(p, e - p))) { want = ac.substr(p, e - p); break; }
            p = e + 1;
        }
    }
    Hist h;
    std::string path = "/svc";
    std::string enc;
    for (char ch : q) enc += (ch == '/' ? "%2F" : ch == ',' ? "%2C" : ch == ' ' ? "%20" : ch == '*' ? "%2A" : std::string(1, ch));
    if (!q.empty()) path += "?contentType=" + enc;
    KV x;
    if (!ct.empty()) x.emplace_back("content-type", ct);
    if (!ac.empty()) x.emplace_back("accept", ac);
    h.log = "content-type '" + ct + "' accept '" + ac + "' query '" + q + "'";
    int k = h.open(0, seq::choose(2) ? "GET" : "POST", path, true, x, want);
    if (!q.empty()) { // a content type named in the query that is not available stays in the topic only if it is the one used
        h.s.io();
        auto m = h.s.take();
        SEQ_CHECK(m.size() == 1, h.log + ": not one request");
        auto got = Hist::topic(m[0].topic.str()).second["contentType"];
        SEQ_CHECK(got == want || got == q, h.log + ": the request asks for " + got);
        if (ok(q) && !ok(ct)) SEQ_CHECK(got == q, h.log + ": the request asks for " + got);
    } else
        h.expectMessages({ k });
    seq::state(h.log);
}

// ---------------------------------------------------------------- C51
struct Poll {
    Server s;
    struct Topic { std::string path, mdp; bool subscribed = false; std::vector<std::string> notes; };
    std::vector<Topic> t{ { "/A", "/A" }, { "/B?x=1", "/B?x=1" } };
    struct Wait { int conn, id, topic; uint64_t idx; };
    std::vector<Wait> waiting;
    std::string       log;
    Poll() { s.connect(); s.connect(); }
    Client &c(int i) { return *s.cl[static_cast<size_t>(i)]; }
    uint64_t first(const Topic &x) { return x.notes.size() > 100 ? x.notes.size() - 100 : 0; }
    void subscriptions(bool expected, const Topic &x) {
        auto m = s.take();
        SEQ_CHECK(m.size() == (expected ? 1u : 0u), log + ": " + std::to_string(m.size()) + " messages reach the broker instead of " + (expected ? "one subscription" : "none"));
        if (expected) SEQ_CHECK(m[0].command == mdp::Command::Subscribe && Hist::topic(m[0].topic.str()) == Hist::topic(x.mdp), log + ": the subscription asks for " + std::string(m[0].topic.str()));
    }
    void delivered(const Resp &r, const Topic &x, uint64_t idx) {
        SEQ_CHECK(r.complete && r.h(":status") == "200" && r.h("x-opencmw-long-polling-idx") == std::to_string(idx) && r.body == x.notes[idx] && r.h("content-length") == std::to_string(r.body.size()), log + ": poll of " + x.path + " index " + std::to_string(idx) + " is answered with " + r.str());
    }
    void redirected(const Resp &r, const Topic &x, uint64_t idx) {
        SEQ_CHECK(r.complete && r.h(":status") == "302", log + ": expected a redirect, got " + r.str());
        auto want = Hist::topic(x.mdp);
        want.second["LongPollingIdx"] = std::to_string(idx);
        SEQ_CHECK(Hist::topic(r.h("location")) == want, log + ": redirected to " + r.h("location") + " instead of index " + std::to_string(idx));
    }
    void quiet() {
        for (auto &k : s.cl) SEQ_CHECK(k->resp.empty(), log + ": a response nobody waits for");
        for (auto &k : s.cl) SEQ_CHECK(g_conns.at(k->fd).peerClosed || s.alive(k->fd), log + ": a connection is dropped");
    }
    void poll(int conn, int topic, const std::string &idx) {
        auto &x  = t[static_cast<size_t>(topic)];
        int   id = c(conn).id();
        log += " poll(" + std::to_string(conn) + "," + x.path + "," + idx + ")";
        s.arrive(c(conn), headers(id, "GET", x.path + (x.path.find('?') == std::string::npos ? "?" : "&") + "LongPollingIdx=" + idx, true));
        s.io();
        const bool bad = idx != "Next" && idx != "Last" && (idx.find_first_not_of("0123456789") != std::string::npos || idx.size() > 19);
        if (!bad || !s.msgs.empty()) { // a poll with a malformed index may subscribe or not
            subscriptions(!x.subscribed, x);
            x.subscribed = true;
        }
        auto           r = c(conn).take(id);
        const uint64_t n = x.notes.size();
        if (idx == "Next") redirected(r, x, n);
        else if (idx == "Last") redirected(r, x, n ? n - 1 : 0);
        else if (bad) {
            SEQ_CHECK(r.complete && r.h(":status") == "500", log + ": malformed index answered with " + r.str());
        } else {
            uint64_t i = std::stoull(idx);
            if (i < first(x)) redirected(r, x, n);
            else if (i < n) delivered(r, x, i);
            else {
                SEQ_CHECK(!r.gotHead && !r.reset, log + ": a poll for the future is answered with " + r.str());
                waiting.push_back({ conn, id, topic, i });
            }
        }
        quiet();
    }
    void notify(int topic, const std::string &what) {
        auto &x = t[static_cast<size_t>(topic)];
        log += " notify(" + x.path + ")";
        Message m;
        m.command     = mdp::Command::Notify;
        m.serviceName = "/svc";
        m.topic       = URI<>(x.mdp);
        m.data        = IoBuffer(what.data(), what.size());
        s.rs.handleNotification(mdp::Topic::fromMdpTopic(URI<>(x.mdp)), std::move(m));
        uint64_t idx = x.notes.size();
        if (x.subscribed) x.notes.push_back(what);
        s.io();
        subscriptions(false, x);
        for (auto it = waiting.begin(); it != waiting.end();) {
            if (x.subscribed && it->topic == topic && it->idx == idx) {
                delivered(c(it->conn).take(it->id), x, idx);
                it = waiting.erase(it);
            } else
                ++it;
        }
        quiet();
    }
};
void c51hist(int depth) {
    Poll p;
    int  serial = 0;
    for (int i = 0; i < depth; i++) {
        int op = seq::choose(16);
        static const std::vector<std::string> idx{ "Next", "Last", "0", "1", "2", "nonsense", "7x", "99999999999999999999999" };
        if (op < 8) p.poll(0, 0, idx[static_cast<size_t>(op)]);
        else if (op == 8) p.poll(1, 0, "0");
        else if (op == 9) p.poll(1, 0, "1");
        else if (op == 10) p.poll(0, 1, "0");
        else if (op == 11) p.notify(0, "n" + std::to_string(serial++));
        else if (op == 12) p.notify(1, "");
        else if (op == 13) { // two notifications before the server writes anything
            p.notify(0, "a" + std::string(1, '\0') + std::to_string(serial++));
        } else if (op == 14) { // a waiting poll is cancelled
            if (p.waiting.empty()) return;
            auto w = p.waiting.begin() + seq::choose(static_cast<int>(p.waiting.size()));
            p.log += " cancel" + std::to_string(w->id);
            p.s.arrive(p.c(w->conn), rst(w->id));
            p.waiting.erase(w);
            p.s.io();
            p.quiet();
        } else { // a client disappears
            if (g_conns.at(p.c(1).fd).peerClosed) return;
            p.log += " close";
            g_conns.at(p.c(1).fd).peerClosed = true;
            std::erase_if(p.waiting, [](auto &w) { return w.conn == 1; });
            p.s.io();
            p.s.cl[1] = std::make_unique<Client>(p.s.nextFd++);
            g_conns[p.c(1).fd];
            g_accept.push_back(p.c(1).fd);
            p.s.call(kListen, true, false);
            p.s.io();
        }
        seq::state(p.log);
    }
}
void capacity() {
    static const std::vector<int> counts{ 0, 1, 99, 100, 101, 102, 199, 200, 201, 350 };
    const int                     n = seq::chooseFrom(counts);
    Poll                          p;
    p.poll(0, 0, "Next");
    for (int i = 0; i < n; i++) { p.notify(0, "note" + std::to_string(i)); p.log = std::to_string(n) + " notifications:"; }
    static const std::vector<long> offs{ -350, -102, -101, -100, -99, -2, -1, 0, 1 };
    for (int k = 0; k < 2; k++) {
        int a = seq::choose(static_cast<int>(offs.size()) + 2);
        if (a >= static_cast<int>(offs.size())) p.poll(k, 0, a == static_cast<int>(offs.size()) ? "Last" : "Next");
        else {
            long i = n + offs[static_cast<size_t>(a)];
            if (i < 0) return;
            p.poll(k, 0, std::to_string(i));
        }
        if (seq::choose(2)) p.notify(0, "more" + std::to_string(k));
    }
    seq::state(p.log);
}
// ---------------------------------------------------------------- C52 routing
void routing() {
    static const std::vector<std::string> paths{ "/a", "/a/*", "/a/b", "/a/b*", "*", "/*", "/a*", "/a/" };
    static const std::vector<std::string> asked{ "/a", "/a/", "/a/b", "/a/bc", "/ab", "/x", "/a/b/c", "/a/x" };
    std::vector<std::string> hp;
    std::vector<std::string> hm;
    const int                n = 3;
    Server                   s;
    std::vector<majordomo::rest::Handler> hs;
    std::string log;
    for (int i = 0; i < n; i++) {
        hp.push_back(seq::chooseFrom(paths));
        hm.push_back(i == 2 && seq::choose(2) ? "POST" : "GET");
        for (int j = 0; j < i; j++) if (hp[static_cast<size_t>(j)] == hp.back()) return;
        auto h   = fixedHandler(hp.back(), "handler " + std::to_string(i), 0);
        h.method = hm.back();
        hs.push_back(h);
        log += " " + hm.back() + hp.back();
    }
    s.rs.setHandlers(hs);
    auto &c = s.connect();
    for (const char *method : { "GET", "POST" })
        for (auto &a : asked) {
            int best = -1;
            for (int i = 0; i < n; i++) {
                const auto &p = hp[static_cast<size_t>(i)];
                if (hm[static_cast<size_t>(i)] != method) continue;
                if (p == a) { best = i; break; }
                if (p.back() == '*' && a.starts_with(p.substr(0, p.size() - 1)) && (best < 0 || p.size() > hp[static_cast<size_t>(best)].size())) best = i;
            }
            int id = c.id();
            s.arrive(c, headers(id, method, a, true));
            s.io();
            auto r = c.take(id);
            auto m = s.take();
            if (best >= 0) SEQ_CHECK(m.empty() && r.complete && r.body == "handler " + std::to_string(best), log + ": " + method + a + " is handled by " + r.str() + " instead of handler " + std::to_string(best));
            else SEQ_CHECK(m.size() == 1 && !r.gotHead && m[0].serviceName == (a == "/a/" ? m[0].serviceName : a), log + ": " + method + a + " does not reach the services");
        }
    seq::state(log);
}
// ---------------------------------------------------------------- C52 files
struct Tree { // root/ with files, and files next to it that must never be seen
    std::filesystem::path              base;
    std::map<std::string, std::string> files{ { "a.txt", "in the root" }, { "empty.html", "" }, { "big.js", pat(40000) }, { "dir/a.txt", "below the root" }, { "dir/c.css", pat(1400) }, { "dir/sub/p.png", pat(700) } };
    Tree() {
        char t[] = "/tmp/verif_rest_XXXXXX";
        if (!mkdtemp(t)) seq::fail("mkdtemp");
        base = t;
        std::filesystem::create_directories(base / "root/dir/sub");
        std::filesystem::create_directories(base / "rootx");
        for (auto &[n, d] : files) std::ofstream(base / "root" / n, std::ios::binary) << d;
        for (auto n : { "secret.txt", "rootx/secret.txt", "a.txt" }) std::ofstream(base / n) << "SECRET";
    }
    ~Tree() { std::error_code e; std::filesystem::remove_all(base, e); }
};
void filePaths(size_t rest) {
    static const std::vector<std::string> seg{ "a.txt", "dir", "..", "", "big.js", "c.css", ".", "empty.html", "sub", "p.png", "no", "%2e%2e", "root", "rootx", "secret.txt" };
    const size_t      threshold = std::array<size_t, 3>{ 1000, 1, 100000000 }[static_cast<size_t>(seq::choose(3))];
    const int         kind      = seq::choose(3);
    const std::string url       = kind == 0 ? "/files/" : kind == 1 ? "/" : "/files";
    const auto        s1        = static_cast<size_t>(seq::choose(static_cast<int>(seg.size())));
    Tree              tree;
    Server            s;
    nghttp2fake::maxFrame = 1500;
    s.rs.setHandlers({ majordomo::rest::fileSystemHandler(kind == 1 ? "*" : "/files/*", kind == 0 ? "/files/" : kind == 1 ? "" : "/files", tree.base / "root", { { "x-extra", "yes" } }, threshold) });
    auto  &c = s.connect();
    size_t n = 1;
    for (size_t i = 0; i < rest; i++) n *= seg.size() + 1;
    for (size_t code = 0; code < n; code++) {
        std::vector<std::string> parts{ seg[s1] };
        bool                     done = false, skip = false;
        for (size_t k = code, i = 0; i < rest; i++, k /= seg.size() + 1) {
            const size_t d = k % (seg.size() + 1);
            if (d == 0) done = true;
            else if (done) skip = true;
            else parts.push_back(seg[d - 1]);
        }
        if (skip) continue;
        std::string              path = url.back() == '/' ? url : url + "/";
        std::vector<std::string> stack;
        bool                     outside = false, dots = false;
        for (size_t i = 0; i < parts.size(); i++) {
            path += (i ? "/" : "") + parts[i];
            if (parts[i] == "..") {
                dots = true;
                if (stack.empty()) outside = true;
                else stack.pop_back();
            } else if (parts[i] == ".") dots = true;
            else if (!parts[i].empty()) stack.push_back(parts[i]);
        }
        std::string name;
        for (auto &x : stack) name += (name.empty() ? "" : "/") + x;
        const bool  leaf = !parts.back().empty() && parts.back() != "." && parts.back() != "..";
        const auto  file = tree.files.find(name);
        const bool  may = !outside && leaf && file != tree.files.end(), must = may && !dots;
        const std::string what = "GET " + path + " (mmap from " + std::to_string(threshold) + "): ";
        int         id[2];
        for (int &i : id) { i = c.id(); s.arrive(c, headers(i, "GET", path, true)); } // twice at the same time
        s.io();
        for (int i : id) {
            auto r = c.take(i);
            if (!r.complete) seq::fail(what + "no complete answer " + r.str());
            const auto st = r.h(":status");
            if (st == "200") {
                if (!may) seq::fail(what + "answered with " + r.str());
                if (r.body != file->second) seq::fail(what + "the content arrives altered: " + r.str());
                if (r.h("content-length") != std::to_string(r.body.size())) seq::fail(what + "wrong length " + r.str());
                auto ext  = name.substr(name.rfind('.'));
                auto type = ext == ".html" ? "text/html" : ext == ".css" ? "text/css" : ext == ".js" ? "application/javascript" : ext == ".png" ? "image/png" : "text/plain";
                if (r.h("content-type") != type) seq::fail(what + "content type " + r.h("content-type"));
                if (r.h("x-extra") != "yes") seq::fail(what + "the extra header is missing");
            } else {
                if (must) seq::fail(what + "a file below the root is answered with " + r.str());
                if (st != "404" && st != "403" && st != "400") seq::fail(what + "answered with " + r.str());
                if (r.body.find("SECRET") != std::string::npos) seq::fail(what + "discloses a file outside the root");
            }
        }
        if (!s.take().empty()) seq::fail(what + "also reaches the broker");
        if (!s.alive(c.fd)) seq::fail(what + "the connection is dropped");
        seq::state(path + std::to_string(threshold) + std::to_string(kind));
    }
}
void throwing() { // handlers that fail
    const int kind = seq::choose(4), when = seq::choose(3);
    Server    s;
    s.rs.setHandlers({ fixedHandler("/good", "fine", 0), { "GET", "/bad", [kind](const majordomo::rest::Request &) -> majordomo::rest::Response {
                          if (kind == 0) throw std::runtime_error("broken handler");
                          if (kind == 1) throw std::out_of_range("");
                          majordomo::rest::Response r;
                          r.code = kind == 2 ? 404 : 200;
                          if (kind == 2) { r.body = IoBuffer("gone", 4); return r; }
                          r.bodyReader = [n = 0](std::span<uint8_t> b) mutable -> std::expected<majordomo::rest::Response::ReadStatus, std::string> {
                              if (n++) return std::unexpected("cannot read");
                              b[0] = 'x';
                              return majordomo::rest::Response::ReadStatus{ 1, true };
                          };
                          return r;
                      } } });
    auto &c = s.connect();
    int   i1 = c.id(), i2 = c.id(), i3 = c.id();
    int   a = when == 0 ? i1 : when == 1 ? i2 : i3, b = when == 0 || when == 2 ? i2 : i1, d = when == 2 ? i1 : i3; // in increasing order of arrival
    std::string x = headers(a, "GET", "/good", true), y = headers(b, "GET", "/bad", true), z = headers(d, "GET", "/svc", true);
    s.arrive(c, when == 0 ? x + y + z : when == 1 ? y + x + z : z + y + x);
    s.io();
    const std::string what = "failing handler " + std::to_string(kind) + "/" + std::to_string(when) + ": ";
    SEQ_CHECK(s.alive(c.fd), what + "the connection is dropped");
    auto m = s.take();
    SEQ_CHECK(m.size() == 1 && m[0].serviceName == "/svc", what + "another request does not reach the broker");
    auto r = c.take(a), q = c.take(b);
    SEQ_CHECK(r.complete && r.body == "fine", what + "another request is answered with " + r.str());
    if (kind < 2) SEQ_CHECK(q.complete && q.h(":status") == "500", what + "answered with " + q.str());
    if (kind == 2) SEQ_CHECK(q.complete && q.h(":status") == "404" && q.body == "gone", what + "answered with " + q.str());
    if (kind == 3) SEQ_CHECK(!q.complete || q.reset, what + "a body that cannot be read is reported as complete");
    seq::state(what);
}
} // namespace
namespace { const bool reg = [] {
    seq::add("C49_write", writePatterns);
    seq::add("C49_read", readSplits);
    seq::add("C50_histories", [] { c50hist(seq::thorough() ? 4 : 3); });
    seq::add("C50_formats", formats);
    seq::add("C51_histories", [] { c51hist(seq::thorough() ? 5 : 4); });
    seq::add("C51_capacity", capacity);
    seq::add("C52_routing", routing);
    seq::add("C52_files", [] { filePaths(seq::thorough() ? 4 : 2); });
    seq::add("C52_handlers", throwing);
    return true;
}(); }
