// C38: MDP messages survive the transport, malformed ones are dropped whole, every frame is released exactly once
#include "mdp.hpp"
#include <zmq/ZmqUtils.hpp>
using namespace opencmw;
using Fmt = mdp::MessageFormat;

namespace {
const std::vector<std::string> texts{ "", "x", std::string("\0", 1), std::string("a\0b\xff", 4), "MDPC03", std::string(70, 'q') };
const std::vector<std::string> topics{ "/", "/svc", "/svc?a=1&b=%20", "mdp://127.0.0.1:12345/svc?x" , "" };

std::string str(const IoBuffer &b) { return std::string(b.asString()); }
struct Pair { // two connected sockets of a type pair
    zmq::Context ctx;
    zmq::Socket  a, b;
    Pair(int ta, int tb) : a(ctx, ta), b(ctx, tb) {
        zmq_bind(b.zmq_ptr, "inproc://p");
        zmq_connect(a.zmq_ptr, "inproc://p");
    }
};
template<Fmt F>
void checkSame(const std::optional<mdp::BasicMessage<F>> &g, const Raw &w, const std::string *src) {
    SEQ_CHECK(g, "a well-formed message was dropped: " + w.str());
    const std::string got = Raw{ g->protocolName, std::string(1, static_cast<char>(g->command)), g->serviceName, str(g->clientRequestID), g->topic.str(), str(g->data), g->error, str(g->rbac) }.str();
    SEQ_CHECK(got == w.str(), "received " + got + " instead of " + w.str());
    if constexpr (F == Fmt::WithSourceId)
        if (src) SEQ_CHECK(g->sourceId == *src, "wrong source id " + seq::quote(g->sourceId) + " instead of " + seq::quote(*src));
}
template<Fmt F>
mdp::BasicMessage<F> build(const Raw &w) {
    mdp::BasicMessage<F> m;
    m.protocolName    = w.proto;
    m.command         = static_cast<mdp::Command>(w.cmd[0]);
    m.serviceName     = w.svc;
    m.clientRequestID = IoBuffer(w.id.data(), w.id.size());
    m.topic           = mdp::Message::URI(w.topic);
    m.data            = IoBuffer(w.body.data(), w.body.size());
    m.error           = w.err;
    m.rbac            = IoBuffer(w.rbac.data(), w.rbac.size());
    return m;
}
Raw chooseMessage() {
    Raw w;
    w.cmd = std::string(1, static_cast<char>(seq::choose(11)));
    // at most two fields deviate from the plain text: all pairs of fields, all pairs of contents
    w.proto = w.svc = w.id = w.body = w.err = w.rbac = "plain";
    std::string *f[] = { &w.proto, &w.svc, &w.id, &w.body, &w.err, &w.rbac };
    const int    i   = seq::choose(6);
    const int    j   = seq::choose(6 - i);
    *f[i]            = seq::chooseFrom(texts);
    if (j) *f[i + j] = seq::chooseFrom(texts);
    w.topic = seq::chooseFrom(topics);
    return w;
}

const bool reg = [] {
    seq::add("C38_round_trip", [] {
        Execution x;
        {
            const int  kind = seq::choose(3);
            const auto w    = chooseMessage();
            if (kind == 0) { // DEALER -> ROUTER -> DEALER
                Pair p(ZMQ_DEALER, ZMQ_ROUTER);
                SEQ_CHECK(zmq::send(build<Fmt::WithoutSourceId>(w), p.a).isValid(), "send failed");
                auto g = zmq::receive<Fmt::WithSourceId>(p.b);
                checkSame<Fmt::WithSourceId>(g, w, nullptr);
                SEQ_CHECK(zmq::send(std::move(*g), p.b).isValid(), "send failed");
                checkSame<Fmt::WithoutSourceId>(zmq::receive<Fmt::WithoutSourceId>(p.a), w, nullptr);
                SEQ_CHECK(!zmq::receive<Fmt::WithoutSourceId>(p.a) && !zmq::receive<Fmt::WithSourceId>(p.b), "message received twice");
            } else if (kind == 1) { // XPUB -> SUB, the source id is the topic
                Pair p(ZMQ_SUB, ZMQ_XPUB);
                zmq_setsockopt(p.a.zmq_ptr, ZMQ_SUBSCRIBE, "/t", 2);
                auto              m   = build<Fmt::WithSourceId>(w);
                const std::string src = seq::choose(2) ? "/topic#" : "/t";
                m.sourceId            = src;
                SEQ_CHECK(zmq::send(std::move(m), p.b).isValid(), "send failed");
                checkSame<Fmt::WithSourceId>(zmq::receive<Fmt::WithSourceId>(p.a), w, &src);
            } else { // PUSH -> PULL, a copy stays intact
                Pair p(ZMQ_PUSH, ZMQ_PULL);
                auto m    = build<Fmt::WithoutSourceId>(w);
                auto copy = m;
                SEQ_CHECK(zmq::send(std::move(m), p.a).isValid(), "send failed");
                checkSame<Fmt::WithoutSourceId>(zmq::receive<Fmt::WithoutSourceId>(p.b), w, nullptr);
                checkSame<Fmt::WithoutSourceId>(std::optional(std::move(copy)), w, nullptr);
            }
            seq::transition(2);
        }
        x.finish();
    });
    // every number of frames, every command byte, malformed topics: dropped whole, the next message is read correctly
    seq::add("C38_malformed", [] {
        Execution x;
        {
            const bool               withSrc = seq::choose(2);
            Pair                     p(withSrc ? ZMQ_DEALER : ZMQ_PUSH, withSrc ? ZMQ_ROUTER : ZMQ_PULL);
            Raw                      w{ CLI, C(Get), "/svc", "1", "/svc", "body", "", "rbac" };
            std::vector<std::string> f;
            bool                     ok = false;
            switch (seq::choose(3)) {
            case 0: { // number of frames
                const int n = 1 + seq::choose(20);
                f           = w.frames();
                f.resize(static_cast<std::size_t>(n), seq::choose(2) ? std::string() : "extra");
                ok = n == 8;
                break;
            }
            case 1: { // command frame
                const int l = seq::choose(4);
                if (l == 0) w.cmd = "";
                else if (l == 1) w.cmd = std::string(1, static_cast<char>(seq::choose(256)));
                else if (l == 2) w.cmd = std::string(1, static_cast<char>(seq::choose(11))) + std::string(1, static_cast<char>(seq::choose(3)));
                else w.cmd = std::string("\1\1\1\1\1\1\1\1", 8);
                ok = w.cmd.size() == 1 && static_cast<unsigned char>(w.cmd[0]) <= 0x0a;
                f  = w.frames();
                break;
            }
            default: { // topic frame: anything
                w.topic = seq::chooseString(std::string_view("/a ?%#[:@\x80\0", 11), seq::thorough() ? 4 : 3);
                try {
                    ok = mdp::Message::URI(w.topic).str() == w.topic;
                    // lazily parsed parts may still be malformed; the message itself is transported
                } catch (const std::exception &) {
                    ok = false;
                }
                f = w.frames();
            }
            }
            zmqfake::send(p.a.zmq_ptr, f);
            const Raw next{ WRK, C(Final), "/next", "2", "/next?x=1", "b2", "e2", "r2" };
            zmqfake::send(p.a.zmq_ptr, next.frames());
            auto run = [&]<Fmt F>() {
                std::optional<mdp::BasicMessage<F>> g;
                try {
                    g = zmq::receive<F>(p.b);
                } catch (const std::exception &e) {
                    seq::fail("receive threw (" + std::string(e.what()) + ") on frames of " + w.str());
                }
                if (ok) checkSame<F>(g, w, nullptr);
                else SEQ_CHECK(!g, "malformed message of " + std::to_string(f.size()) + " frames accepted: " + w.str());
                checkSame<F>(zmq::receive<F>(p.b), next, nullptr);
                SEQ_CHECK(!zmq::receive<F>(p.b), "one message too many");
            };
            if (withSrc) run.template operator()<Fmt::WithSourceId>();
            else run.template operator()<Fmt::WithoutSourceId>();
            seq::transition(2);
        }
        x.finish();
    });
    // all histories of frame operations: every frame body is released exactly once, contents follow moves
    seq::add("C38_frames", [] {
        Execution x;
        {
            Pair                             p(ZMQ_PUSH, ZMQ_PULL);
            std::vector<std::string>         wire;
            struct Slot { zmq::MessageFrame f; std::string content; };
            std::array<std::optional<Slot>, 2> s;
            for (auto &e : s) e.emplace(Slot{ zmq::MessageFrame(), "" });
            int       serial = 0;
            const int depth  = seq::thorough() ? 5 : 4;
            for (int d = 0; d < depth; ++d) {
                seq::transition();
                const int i = seq::choose(2);
                auto     &a = *s[i];
                auto     &b = *s[1 - i];
                switch (seq::choose(11)) {
                case 0: {
                    const auto t = "text" + std::to_string(++serial);
                    a.f          = zmq::MessageFrame(std::string(t));
                    a.content    = t;
                    break;
                }
                case 1: {
                    const auto t = "a longer buffer body " + std::to_string(++serial);
                    a.f          = zmq::MessageFrame(IoBuffer(t.data(), t.size()));
                    a.content    = t;
                    break;
                }
                case 2: a.f = zmq::MessageFrame('c'); a.content = "c"; break;
                case 3: a.f = zmq::MessageFrame::fromStaticData("static"); a.content = "static"; break;
                case 4: a.f = std::move(b.f); a.content = b.content; b.content = ""; break;
                case 5: { zmq::MessageFrame t(std::move(a.f)); SEQ_CHECK(std::string(t.data()) == a.content, "moved frame lost its content"); a.f = std::move(t); break; }
                case 6: a.f.swap(b.f); std::swap(a.content, b.content); break;
                case 7: SEQ_CHECK(a.f.send(p.a, ZMQ_DONTWAIT).isValid(), "send failed"); wire.push_back(a.content); a.content = ""; break;
                case 8: { // EAGAIN: the frame keeps its content
                    zmqfake::sendFault = [](int) { return EAGAIN; };
                    SEQ_CHECK(!a.f.send(p.a, ZMQ_DONTWAIT).isValid(), "send succeeded although the socket would block");
                    zmqfake::sendFault = nullptr;
                    break;
                }
                case 9: {
                    const bool ok = a.f.receive(p.b, ZMQ_DONTWAIT).isValid();
                    SEQ_CHECK(ok == !wire.empty(), "receive result wrong");
                    if (ok) { a.content = wire.front(); wire.erase(wire.begin()); }
                    else if (!ok) a.content = a.content; // unchanged
                    break;
                }
                case 10: a.f = zmq::MessageFrame(); a.content = ""; break;
                }
                for (auto &e : s) SEQ_CHECK(std::string(e->f.data()) == e->content && e->f.size() == e->content.size(), "frame content is " + seq::quote(e->f.data()) + " instead of " + seq::quote(e->content));
            }
        }
        x.finish();
    });
    return true;
}();
} // namespace
