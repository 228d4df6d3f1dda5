// In-memory libzmq used by the MDP harnesses. Deterministic: no I/O threads, a message sent is at once in the peer's queue.
//  ROUTER   5-byte routing ids (0x00 + counter), unroutable messages silently dropped
//  DEALER   round-robin out, fair-queued in; EAGAIN without any connection
//  PUSH/PULL, PAIR likewise
//  SUB      forwards every subscribe upstream, an unsubscribe only when its own count for that prefix drops to zero; filters what it receives
//  XPUB     reports the first subscribe for a prefix and the last unsubscribe; ZMQ_XPUB_VERBOSE: every subscribe; ZMQ_XPUB_VERBOSER: everything
//  inproc/tcp connect before bind is allowed; tcp connections outlive the bound peer, inproc connections do not.
// Compiled with ZMQFAKE_THREADS it is thread-safe and zmq_poll really waits (used to run the repository's own tests against it).
#include "zmqfake.hpp"
#include <chrono>
#include <cstring>
#include <deque>
#include <memory>
#include <set>
#include <algorithm>
#include <utility>
#ifdef ZMQFAKE_THREADS
#include <condition_variable>
#include <mutex>
#endif

namespace {
struct Content {
    void        *data;
    std::size_t  size;
    zmq_free_fn *ffn  = nullptr;
    void        *hint = nullptr;
    int          refs = 1;
    std::string  own;
};
using Message = std::deque<Content *>;
struct Sock;
struct End {
    Sock                 *owner;
    End                  *peer = nullptr;
    bool                  alive = true;     // still usable for sending
    bool                  connecting = false; // created by connect
    std::string           endpoint;
    std::deque<Message>   in;
    std::deque<Message>   outbox;  // connect side, not attached yet
    std::string           rid;
    std::set<std::string> subs;    // XPUB/PUB side: what the peer subscribed to
};
struct Ctx {
    std::map<std::string, Sock *> bound;
    long                          open = 0;
    bool                          terminated = false;
};
struct Sock {
    Ctx                                *ctx;
    int                                 type;
    bool                                closed = false;
    std::vector<std::unique_ptr<End>>   ends;
    std::size_t                         rr = 0, fq = 0;
    Message                             curIn;
    Message                             curOut;
    bool                                dropOut = false;
    std::deque<std::string>             xpubIn;
    std::map<std::string, std::set<End *>> trie;
    bool                                verboseSubs = false, verboseUnsubs = false;
    std::map<std::string, long>         subs;
    std::size_t                         sent = 0;
    std::string                         nextRid;
};
struct Msg {
    std::uint32_t magic;
    std::uint32_t more;
    Content      *c;
};
constexpr std::uint32_t VALID = 0x5a4d5121, CLOSED = 0xdeadbeef;

std::vector<std::unique_ptr<Sock>> g_socks;
std::vector<std::unique_ptr<Ctx>>  g_ctxs;
std::map<std::string, Sock *>      g_tcp;
long                               g_live = 0;
std::string                        g_error;
std::uint32_t                      g_rid = 0;

#ifdef ZMQFAKE_THREADS
std::recursive_mutex        g_mutex;
std::condition_variable_any g_cv;
#define LOCK std::unique_lock<std::recursive_mutex> lk(g_mutex)
#define CHANGED g_cv.notify_all()
#else
#define LOCK (void) 0
#define CHANGED (void) 0
#endif

void misuse(const std::string &what) {
    if (g_error.empty()) g_error = what;
}
void unref(Content *c) {
    if (c && --c->refs == 0) {
        if (c->ffn) c->ffn(c->data, c->hint);
        delete c;
        --g_live;
    }
}
Content *mk(const void *p, std::size_t n) {
    auto *c = new Content{ nullptr, n };
    c->own.assign(static_cast<const char *>(p), n);
    c->data = c->own.data();
    ++g_live;
    return c;
}
void drop(Message &m) {
    for (auto *c : m) unref(c);
    m.clear();
}
std::string_view sv(const Content *c) { return { static_cast<const char *>(c->data), c->size }; }
Msg             *M(zmq_msg_t *m) { return reinterpret_cast<Msg *>(m); }
const Msg       *M(const zmq_msg_t *m) { return reinterpret_cast<const Msg *>(m); }
Sock            *S(void *s, const char *fn) {
    auto *p = static_cast<Sock *>(s);
    if (!p || p->closed) {
        misuse(std::string(fn) + " on a closed or null socket");
        errno = 88 /*ENOTSOCK*/;
        return nullptr;
    }
    return p;
}
bool isInproc(const std::string &ep) { return ep.starts_with("inproc:"); }
std::map<std::string, Sock *> &boundMap(Sock *s, const std::string &ep) { return isInproc(ep) ? s->ctx->bound : g_tcp; }

void handleSub(End *at, bool add, const std::string &topic) { // at: End owned by the XPUB/PUB
    Sock *x = at->owner;
    auto &set = x->trie[topic];
    bool  notify;
    if (add) {
        notify = set.empty() || x->verboseSubs;
        set.insert(at);
        at->subs.insert(topic);
    } else {
        const bool had = set.erase(at) > 0;
        at->subs.erase(topic);
        const bool remain = had && !set.empty();
        if (set.empty()) x->trie.erase(topic);
        notify = !remain || x->verboseUnsubs;
    }
    if (notify && x->type == ZMQ_XPUB) x->xpubIn.push_back(std::string(1, add ? '\1' : '\0') + topic);
}
void detachSubs(End *at) {
    Sock *x = at->owner;
    for (const auto &t : std::set<std::string>(at->subs)) {
        auto &set = x->trie[t];
        set.erase(at);
        const bool last = set.empty();
        if (last) x->trie.erase(t);
        if ((last || x->verboseUnsubs) && x->type == ZMQ_XPUB) x->xpubIn.push_back(std::string(1, '\0') + t);
    }
    at->subs.clear();
}
bool isPub(int t) { return t == ZMQ_XPUB || t == ZMQ_PUB; }
bool isSub(int t) { return t == ZMQ_SUB || t == ZMQ_XSUB; }
std::string newRid(End *e) {
    if (e->peer && !e->peer->owner->nextRid.empty()) return e->peer->owner->nextRid;
    const auto  n = ++g_rid;
    std::string r(5, '\0');
    for (int i = 0; i < 4; ++i) r[4 - i] = static_cast<char>((n >> (8 * i)) & 0xff);
    return r;
}
void sayHello(End *e) { // e just got attached: SUB announces its subscriptions
    if (isSub(e->owner->type) && isPub(e->peer->owner->type))
        for (const auto &[t, n] : e->owner->subs) handleSub(e->peer, true, t);
}
void attach(End *c, Sock *bound) {
    bound->ends.push_back(std::make_unique<End>(End{ bound }));
    End *b = bound->ends.back().get();
    b->peer = c;
    c->peer = b;
    b->endpoint = c->endpoint;
    if (bound->type == ZMQ_ROUTER) b->rid = newRid(b);
    if (c->owner->type == ZMQ_ROUTER && c->rid.empty()) c->rid = newRid(c);
    sayHello(c);
    sayHello(b);
    for (auto &m : c->outbox) b->in.push_back(std::move(m));
    c->outbox.clear();
}
// other side of the connection is gone
void peerGone(End *e) {
    if (isPub(e->owner->type)) detachSubs(e);
    e->peer = nullptr;
    const bool reconnects = e->connecting && !isInproc(e->endpoint);
    if (!reconnects) e->alive = false;
}
void deliver(End *e, Message &&m) { // send through e towards its peer
    if (e->peer) e->peer->in.push_back(std::move(m));
    else if (e->connecting && e->alive) e->outbox.push_back(std::move(m));
    else drop(m);
}
bool usable(const End *e) { return e->alive && (e->peer || e->connecting); }
bool canSend(Sock *s) {
    switch (s->type) {
    case ZMQ_DEALER:
    case ZMQ_PUSH:
    case ZMQ_PAIR:
    case ZMQ_REQ: return std::ranges::any_of(s->ends, [](auto &e) { return usable(e.get()); });
    case ZMQ_SUB:
    case ZMQ_PULL: return false;
    default: return true;
    }
}
void flush(Sock *s) {
    Message m = std::move(s->curOut);
    s->curOut.clear();
    ++s->sent;
    switch (s->type) {
    case ZMQ_ROUTER: {
        const auto id = std::string(sv(m.front()));
        unref(m.front());
        m.pop_front();
        for (auto &e : s->ends)
            if (e->alive && e->peer && e->rid == id) {
                deliver(e.get(), std::move(m));
                return;
            }
        drop(m);
        return;
    }
    case ZMQ_PUB:
    case ZMQ_XPUB: {
        std::set<End *> to;
        const auto      first = std::string(sv(m.front()));
        for (const auto &[prefix, set] : s->trie)
            if (first.starts_with(prefix)) to.insert(set.begin(), set.end());
        for (auto &e : s->ends) // deterministic order
            if (to.contains(e.get())) {
                Message copy = m;
                for (auto *c : copy) ++c->refs;
                deliver(e.get(), std::move(copy));
            }
        drop(m);
        return;
    }
    case ZMQ_XSUB: { // \1prefix subscribes, \0prefix unsubscribes, anything else is a user message for the publishers
        const auto data = std::string(sv(m.front()));
        const bool add  = !data.empty() && data[0] == '\1', rm = !data.empty() && data[0] == '\0';
        const auto topic = data.empty() ? std::string() : data.substr(1);
        bool       fwd  = true;
        if (add) ++s->subs[topic];
        if (rm) {
            auto it = s->subs.find(topic);
            fwd     = it != s->subs.end() && --it->second == 0;
            if (fwd) s->subs.erase(it);
        }
        for (std::size_t i = 0; fwd && i < s->ends.size(); ++i)
            if (auto *e = s->ends[i].get(); e->alive && e->peer && isPub(e->peer->owner->type)) {
                if (add || rm) handleSub(e->peer, add, topic);
                else if (e->peer->owner->type == ZMQ_XPUB) e->peer->owner->xpubIn.push_back(data);
            }
        drop(m);
        return;
    }
    default: {
        const auto n = s->ends.size();
        for (std::size_t i = 0; i < n; ++i) {
            auto *e = s->ends[(s->rr + i) % n].get();
            if (usable(e)) {
                s->rr = (s->rr + i + 1) % n;
                deliver(e, std::move(m));
                return;
            }
        }
        drop(m);
    }
    }
}
bool subMatches(Sock *s, std::string_view first) {
    return std::ranges::any_of(s->subs, [&](const auto &p) { return first.starts_with(p.first); });
}
bool fill(Sock *s) { // make curIn non-empty if a message can be read
    if (!s->curIn.empty()) return true;
    if (s->type == ZMQ_XPUB && !s->xpubIn.empty()) {
        s->curIn.push_back(mk(s->xpubIn.front().data(), s->xpubIn.front().size()));
        s->xpubIn.pop_front();
        return true;
    }
    const auto n = s->ends.size();
    for (std::size_t i = 0; i < n; ++i) {
        auto *e = s->ends[(s->fq + i) % n].get();
        while (!e->in.empty()) {
            Message m = std::move(e->in.front());
            e->in.pop_front();
            if (s->type == ZMQ_SUB && (m.empty() || !subMatches(s, sv(m.front())))) {
                drop(m);
                continue;
            }
            s->fq = (s->fq + i + 1) % n;
            s->curIn = std::move(m);
            if (s->type == ZMQ_ROUTER) s->curIn.push_front(mk(e->rid.data(), e->rid.size()));
            return true;
        }
    }
    return false;
}
void closeSock(Sock *s) {
    for (auto &e : s->ends) {
        for (auto &m : e->in) drop(m);
        for (auto &m : e->outbox) drop(m);
        e->in.clear();
        if (e->peer) peerGone(e->peer);
        e->peer  = nullptr;
        e->alive = false;
    }
    drop(s->curIn);
    drop(s->curOut);
    for (auto *map : { &s->ctx->bound, &g_tcp })
        for (auto it = map->begin(); it != map->end();) it = it->second == s ? map->erase(it) : std::next(it);
    s->trie.clear();
    s->closed = true;
    --s->ctx->open;
}
} // namespace

namespace zmqfake {
std::function<bool(long)> onPoll;
std::function<int(int)>   sendFault;
std::function<short(int)> fdReady;
void                      reset() {
    LOCK;
    for (auto &s : g_socks)
        if (!s->closed) closeSock(s.get());
    std::exchange(g_socks, {});
    g_ctxs.clear();
    g_tcp.clear();
    g_error.clear();
    g_live = 0;
    g_rid  = 0;
    onPoll = nullptr;
    sendFault = nullptr;
    fdReady   = nullptr;
}
long        liveContents() { LOCK; return g_live; }
long        openSockets() { LOCK; return std::ranges::count_if(g_socks, [](auto &s) { return !s->closed; }); }
std::string firstError() { LOCK; return g_error; }
void        send(void *sock, const std::vector<std::string> &frames) {
    for (std::size_t i = 0; i < frames.size(); ++i) zmq_send(sock, frames[i].data(), frames[i].size(), ZMQ_DONTWAIT | (i + 1 < frames.size() ? ZMQ_SNDMORE : 0));
}
bool recv(void *sock, std::vector<std::string> &frames) {
    frames.clear();
    while (true) {
        zmq_msg_t m;
        zmq_msg_init(&m);
        if (zmq_msg_recv(&m, sock, ZMQ_DONTWAIT) < 0) return false;
        frames.emplace_back(static_cast<char *>(zmq_msg_data(&m)), zmq_msg_size(&m));
        const bool more = zmq_msg_more(&m);
        zmq_msg_close(&m);
        if (!more) return true;
    }
}
std::size_t pending(void *sock) {
    LOCK;
    auto       *s = static_cast<Sock *>(sock);
    std::size_t n = s->xpubIn.size() + (s->curIn.empty() ? 0 : 1);
    for (auto &e : s->ends) n += e->in.size();
    return n;
}
std::multimap<std::string, void *> subscriptions(void *sock) {
    LOCK;
    std::multimap<std::string, void *> r;
    for (auto &[p, set] : static_cast<Sock *>(sock)->trie)
        for (auto *e : set) r.emplace(p, e);
    return r;
}
std::map<std::string, long> ownSubscriptions(void *sock) { LOCK; return static_cast<Sock *>(sock)->subs; }
std::size_t                 sentCount(void *sock) { LOCK; return static_cast<Sock *>(sock)->sent; }
void                       *findBound(const std::string &ep) {
    LOCK;
    for (auto &c : g_ctxs)
        if (auto it = c->bound.find(ep); it != c->bound.end()) return it->second;
    auto it = g_tcp.find(ep);
    return it == g_tcp.end() ? nullptr : it->second;
}
} // namespace zmqfake

extern "C" {
int         zmq_errno(void) { return errno; }
const char *zmq_strerror(int e) { return std::strerror(e); }
void       *zmq_ctx_new(void) {
    LOCK;
    g_ctxs.push_back(std::make_unique<Ctx>());
    return g_ctxs.back().get();
}
int zmq_ctx_term(void *c) {
    LOCK;
    if (!c) { errno = EFAULT; return -1; }
    auto *x = static_cast<Ctx *>(c);
    if (x->open) misuse("zmq_ctx_term with open sockets blocks forever");
    x->terminated = true;
    return 0;
}
int   zmq_ctx_destroy(void *c) { return zmq_ctx_term(c); }
int   zmq_ctx_shutdown(void *) { return 0; }
int   zmq_ctx_set(void *, int, int) { return 0; }
void *zmq_socket(void *c, int type) {
    LOCK;
    auto *x = static_cast<Ctx *>(c);
    if (!x || x->terminated) { errno = EFAULT; return nullptr; }
    g_socks.push_back(std::make_unique<Sock>(Sock{ x, type }));
    ++x->open;
    return g_socks.back().get();
}
int zmq_close(void *s) {
    LOCK;
    if (!s) { errno = 88; return -1; }
    auto *p = S(s, "zmq_close");
    if (!p) return -1;
    closeSock(p);
    CHANGED;
    return 0;
}
int zmq_bind(void *s, const char *ep) {
    LOCK;
    auto *p = S(s, "zmq_bind");
    if (!p) return -1;
    const std::string e(ep);
    if (e.find("://") == std::string::npos) { errno = EINVAL; return -1; }
    if (!isInproc(e) && !e.starts_with("tcp://")) { errno = 93 /*EPROTONOSUPPORT*/; return -1; }
    auto &map = boundMap(p, e);
    if (map.contains(e)) { errno = EADDRINUSE; return -1; }
    map[e] = p;
    for (auto &q : g_socks) // pending connects
        if (!q->closed && (!isInproc(e) || q->ctx == p->ctx))
            for (std::size_t i = 0; i < q->ends.size(); ++i) {
                auto *end = q->ends[i].get();
                if (end->connecting && end->alive && !end->peer && end->endpoint == e) attach(end, p);
            }
    CHANGED;
    return 0;
}
int zmq_connect(void *s, const char *ep) {
    LOCK;
    auto *p = S(s, "zmq_connect");
    if (!p) return -1;
    const std::string e(ep);
    if (e.find("://") == std::string::npos) { errno = EINVAL; return -1; }
    if (!isInproc(e) && !e.starts_with("tcp://")) { errno = 93; return -1; }
    p->ends.push_back(std::make_unique<End>(End{ p }));
    End *end        = p->ends.back().get();
    end->connecting = true;
    end->endpoint   = e;
    auto &map       = boundMap(p, e);
    if (auto it = map.find(e); it != map.end()) attach(end, it->second);
    CHANGED;
    return 0;
}
int zmq_disconnect(void *s, const char *ep) {
    LOCK;
    auto *p = S(s, "zmq_disconnect");
    if (!p) return -1;
    for (auto &e : p->ends)
        if (e->connecting && e->alive && e->endpoint == ep) {
            for (auto &m : e->outbox) drop(m);
            e->outbox.clear();
            if (e->peer) peerGone(e->peer);
            if (isPub(p->type)) detachSubs(e.get());
            e->peer  = nullptr;
            e->alive = false;
            CHANGED;
            return 0;
        }
    errno = ENOENT;
    return -1;
}
int zmq_unbind(void *s, const char *ep) {
    LOCK;
    auto *p = S(s, "zmq_unbind");
    if (!p) return -1;
    return boundMap(p, ep).erase(ep) ? 0 : (errno = ENOENT, -1);
}
int zmq_setsockopt(void *s, int opt, const void *val, size_t n) {
    LOCK;
    auto *p = S(s, "zmq_setsockopt");
    if (!p) return -1;
    const std::string v(static_cast<const char *>(val), n);
    switch (opt) {
    case ZMQ_SUBSCRIBE:
        if (p->type != ZMQ_SUB) { errno = EINVAL; return -1; }
        ++p->subs[v];
        for (std::size_t i = 0; i < p->ends.size(); ++i)
            if (auto *e = p->ends[i].get(); e->alive && e->peer && isPub(e->peer->owner->type)) handleSub(e->peer, true, v);
        break;
    case ZMQ_UNSUBSCRIBE: {
        if (p->type != ZMQ_SUB) { errno = EINVAL; return -1; }
        auto it = p->subs.find(v);
        if (it == p->subs.end()) break;
        if (--it->second == 0) {
            p->subs.erase(it);
            for (std::size_t i = 0; i < p->ends.size(); ++i)
                if (auto *e = p->ends[i].get(); e->alive && e->peer && isPub(e->peer->owner->type)) handleSub(e->peer, false, v);
        }
        break;
    }
    case ZMQ_XPUB_VERBOSE:
        if (p->type != ZMQ_XPUB) { errno = EINVAL; return -1; }
        p->verboseSubs   = *static_cast<const int *>(val) != 0;
        p->verboseUnsubs = false;
        break;
    case ZMQ_XPUB_VERBOSER:
        if (p->type != ZMQ_XPUB) { errno = EINVAL; return -1; }
        p->verboseSubs = p->verboseUnsubs = *static_cast<const int *>(val) != 0;
        break;
    case ZMQ_ROUTING_ID: p->nextRid = v; break;
    default: break; // HWM, LINGER, HEARTBEAT_*: no influence here
    }
    CHANGED;
    return 0;
}
int zmq_getsockopt(void *s, int opt, void *val, size_t *n) {
    LOCK;
    auto *p = S(s, "zmq_getsockopt");
    if (!p) return -1;
    int v = 0;
    switch (opt) {
    case ZMQ_RCVMORE: v = p->curIn.empty() ? 0 : 1; break;
    case ZMQ_TYPE: v = p->type; break;
    case ZMQ_EVENTS: v = (fill(p) ? ZMQ_POLLIN : 0) | (canSend(p) ? ZMQ_POLLOUT : 0); break;
    default: errno = EINVAL; return -1;
    }
    if (*n < sizeof(int)) { errno = EINVAL; return -1; }
    std::memset(val, 0, *n);
    std::memcpy(val, &v, sizeof v);
    *n = sizeof v;
    return 0;
}
int zmq_msg_init(zmq_msg_t *m) {
    *M(m) = { VALID, 0, nullptr };
    return 0;
}
int zmq_msg_init_size(zmq_msg_t *m, size_t n) {
    LOCK;
    *M(m) = { VALID, 0, mk(std::string(n, '\0').data(), n) };
    return 0;
}
int zmq_msg_init_data(zmq_msg_t *m, void *d, size_t n, zmq_free_fn *f, void *h) {
    LOCK;
    auto *c = new Content{ d, n, f, h };
    ++g_live;
    *M(m) = { VALID, 0, c };
    return 0;
}
int zmq_msg_close(zmq_msg_t *m) {
    LOCK;
    if (M(m)->magic != VALID) {
        misuse("zmq_msg_close on an invalid message (closed twice or never initialised)");
        errno = EFAULT;
        return -1;
    }
    unref(M(m)->c);
    *M(m) = { CLOSED, 0, nullptr };
    return 0;
}
int zmq_msg_move(zmq_msg_t *d, zmq_msg_t *s) {
    LOCK;
    if (M(s)->magic != VALID) {
        misuse("zmq_msg_move from an invalid message");
        errno = EFAULT;
        return -1;
    }
    if (d == s) return 0;
    if (M(d)->magic != VALID) {
        misuse("zmq_msg_move to an invalid message");
        errno = EFAULT;
        return -1;
    }
    unref(M(d)->c);
    *M(d) = *M(s);
    *M(s) = { VALID, 0, nullptr };
    return 0;
}
int zmq_msg_copy(zmq_msg_t *d, zmq_msg_t *s) {
    LOCK;
    if (M(s)->magic != VALID || M(d)->magic != VALID) { errno = EFAULT; return -1; }
    if (M(s)->c) ++M(s)->c->refs;
    unref(M(d)->c);
    *M(d) = *M(s);
    return 0;
}
void  *zmq_msg_data(zmq_msg_t *m) {
    if (M(m)->magic != VALID) misuse("zmq_msg_data on an invalid message");
    return M(m)->c ? M(m)->c->data : static_cast<void *>(m->_ + 32);
}
size_t zmq_msg_size(const zmq_msg_t *m) {
    if (M(m)->magic != VALID) misuse("zmq_msg_size on an invalid message");
    return M(m)->c ? M(m)->c->size : 0;
}
int    zmq_msg_more(const zmq_msg_t *m) { return static_cast<int>(M(m)->more); }
int    zmq_msg_send(zmq_msg_t *m, void *s, int flags) {
    LOCK;
    auto *p = S(s, "zmq_msg_send");
    if (!p) return -1;
    if (M(m)->magic != VALID) { misuse("zmq_msg_send of an invalid message"); errno = EFAULT; return -1; }
    if (p->type == ZMQ_SUB || p->type == ZMQ_PULL) { errno = 95 /*ENOTSUP*/; return -1; }
    if (p->curOut.empty()) {
        if (zmqfake::sendFault)
            if (int e = zmqfake::sendFault(p->type)) { errno = e; return -1; }
#ifdef ZMQFAKE_THREADS
        while (!canSend(p) && !(flags & ZMQ_DONTWAIT)) g_cv.wait(lk);
#endif
        if (!canSend(p)) {
            if (!(flags & ZMQ_DONTWAIT)) misuse("blocking send without a peer");
            errno = EAGAIN;
            return -1;
        }
    }
    Content *c = M(m)->c ? M(m)->c : mk("", 0);
    const int n = static_cast<int>(c->size);
    *M(m)       = { VALID, 0, nullptr };
    p->curOut.push_back(c);
    if (!(flags & ZMQ_SNDMORE)) {
        flush(p);
        CHANGED;
    }
    return n;
}
int zmq_msg_recv(zmq_msg_t *m, void *s, int flags) {
    LOCK;
    auto *p = S(s, "zmq_msg_recv");
    if (!p) return -1;
    if (M(m)->magic != VALID) { misuse("zmq_msg_recv into an invalid message"); errno = EFAULT; return -1; }
    if (p->type == ZMQ_PUSH || p->type == ZMQ_PUB) { errno = 95; return -1; }
#ifdef ZMQFAKE_THREADS
    while (!fill(p) && !(flags & ZMQ_DONTWAIT)) g_cv.wait(lk);
#endif
    if (!fill(p)) {
        if (!(flags & ZMQ_DONTWAIT)) misuse("blocking receive with nothing to read");
        errno = EAGAIN;
        return -1;
    }
    unref(M(m)->c);
    Content *c = p->curIn.front();
    p->curIn.pop_front();
    *M(m) = { VALID, p->curIn.empty() ? 0u : 1u, c };
    return static_cast<int>(c->size);
}
int zmq_send(void *s, const void *d, size_t n, int flags) {
    zmq_msg_t m;
    {
        LOCK;
        *M(&m) = { VALID, 0, mk(d, n) };
    }
    const int r = zmq_msg_send(&m, s, flags);
    const int e = errno;
    zmq_msg_close(&m);
    errno = e;
    return r;
}
int zmq_recv(void *s, void *d, size_t n, int flags) {
    zmq_msg_t m;
    zmq_msg_init(&m);
    const int r = zmq_msg_recv(&m, s, flags);
    const int e = errno;
    if (r >= 0) std::memcpy(d, zmq_msg_data(&m), std::min(n, zmq_msg_size(&m)));
    zmq_msg_close(&m);
    errno = e;
    return r;
}
static int pollOnce(zmq_pollitem_t *it, int n) {
    int ready = 0;
    for (int i = 0; i < n; ++i) {
        it[i].revents = 0;
        if (!it[i].socket) {
            if (zmqfake::fdReady && (it[i].revents = static_cast<short>(zmqfake::fdReady(it[i].fd) & it[i].events))) ++ready;
            continue;
        }
        auto *p = S(it[i].socket, "zmq_poll");
        if (!p) return -1;
        if ((it[i].events & ZMQ_POLLIN) && fill(p)) it[i].revents |= ZMQ_POLLIN;
        if ((it[i].events & ZMQ_POLLOUT) && canSend(p)) it[i].revents |= ZMQ_POLLOUT;
        if (it[i].revents) ++ready;
    }
    return ready;
}
int zmq_poll(zmq_pollitem_t *it, int n, long timeout) {
    {
        LOCK;
        const int r = pollOnce(it, n);
        if (r != 0 || timeout == 0) return r;
#ifdef ZMQFAKE_THREADS
        const auto until = std::chrono::steady_clock::now() + std::chrono::milliseconds(timeout < 0 ? 1000000 : timeout);
        while (true) {
            const bool out = g_cv.wait_until(lk, until) == std::cv_status::timeout;
            const int  q   = pollOnce(it, n);
            if (q != 0 || out) return q;
        }
#endif
    }
    if (zmqfake::onPoll && !zmqfake::onPoll(timeout)) { errno = EINTR; return -1; }
    return pollOnce(it, n);
}
}
