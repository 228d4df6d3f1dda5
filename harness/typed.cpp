// C45: a typed worker (Worker<service, Context, Input, Output>) driven through its real message loop: content types x bodies x
// contexts, and every truncation and single-byte corruption of valid bodies
#include "mdp.hpp"
#include "restmock.hpp"
#include <majordomo/Worker.hpp>
#include <memory>
using namespace opencmw;
using namespace opencmw::majordomo;

namespace typed {
struct Ctx {
    int32_t        n = 7;
    std::string    who;
    MIME::MimeType contentType = MIME::UNKNOWN;
};
struct In {
    int32_t                    i = 0;
    std::string                text;
    std::vector<int32_t>       v;
    double                     d = 0;
    std::vector<std::string>   m;
    bool                       operator==(const In &) const = default;
};
struct Out {
    std::string          text;
    std::vector<int32_t> v;
    int64_t              sum = 0;
    bool                 operator==(const Out &) const = default;
};
} // namespace typed
ENABLE_REFLECTION_FOR(typed::Ctx, n, who, contentType)
ENABLE_REFLECTION_FOR(typed::In, i, text, v, d, m)
ENABLE_REFLECTION_FOR(typed::Out, text, v, sum)

namespace {
using typed::Ctx, typed::In, typed::Out;
using Svc = Worker<"/svc", Ctx, In, Out>;
struct RawBroker {
    RawSock router, sub;
    explicit RawBroker(void *ctx) : router(ctx, ZMQ_ROUTER), sub(ctx, ZMQ_SUB) {
        zmq_bind(router.s, INTERNAL_ADDRESS_BROKER.str().c_str());
        zmq_bind(sub.s, INTERNAL_ADDRESS_SUBSCRIBE.str().c_str());
    }
    void send(const std::string &rid, const Raw &m) {
        auto f = m.frames();
        f.insert(f.begin(), rid);
        router.sendFrames(f);
    }
};
enum Proto { YAS, CMW, JSON, NPROTO };
template<typename T>
std::string encode(int p, const T &t) {
    IoBuffer b;
    if (p == YAS) opencmw::serialise<opencmw::YaS>(b, t);
    if (p == CMW) opencmw::serialise<opencmw::CmwLight>(b, t);
    if (p == JSON) opencmw::serialise<opencmw::Json>(b, t);
    return std::string(b.asString());
}
const std::vector<In> &inputs() {
    static const std::vector<In> v{ {}, { 1, "text", { 1, 2, 3 }, 1.5, { "key" } }, { -5, "", { 0 }, -0.25, { "a", "" } }, { INT32_MAX, "a longer text, with \"quotes\"", { INT32_MIN, INT32_MAX }, 1e300, {} } };
    return v;
}
Out work(const In &in, const Ctx &c) {
    Out o;
    o.text = "<" + in.text + ">" + c.who;
    o.v    = in.v;
    o.v.push_back(in.i);
    for (auto x : in.v) o.sum += x;
    for (auto &x : in.m) o.sum += static_cast<int64_t>(x.size());
    return o;
}
std::map<std::string, std::string> query(const std::string &topic) { // independent of the library
    std::map<std::string, std::string> r;
    const auto                         q = topic.find('?');
    if (q == std::string::npos) return r;
    std::size_t i = q + 1;
    while (i <= topic.size()) {
        auto        e    = std::min(topic.find('&', i), topic.size());
        std::string item = topic.substr(i, e - i), key = item.substr(0, item.find('=')), val = item.find('=') == std::string::npos ? "" : item.substr(item.find('=') + 1), dec;
        for (std::size_t k = 0; k < val.size(); ++k)
            if (val[k] == '%' && k + 2 < val.size() + 0u) {
                dec += static_cast<char>(std::stoi(val.substr(k + 1, 2), nullptr, 16));
                k += 2;
            } else dec += val[k];
        r[key] = dec;
        i      = e + 1;
    }
    return r;
}
struct Run { // one worker, a list of requests, all replies
    std::vector<Raw>                        replies;
    std::vector<std::pair<Ctx, In>>         calls;
    std::function<void(const Ctx &, const In &, Ctx &, Out &)> handler = [](const Ctx &c, const In &in, Ctx &, Out &o) { o = work(in, c); };
    void go(const std::vector<Raw> &requests, std::function<void(Svc &)> between = {}) {
        Execution x;
        {
            zmq::Context ctx;
            RawBroker    broker(ctx.zmq_ptr);
            if (between) broker.sub.subscribe("/svc#");
            Svc          worker(INPROC_BROKER, [&](RequestContext &, const Ctx &c, const In &in, Ctx &rc, Out &o) {
                calls.emplace_back(c, in);
                handler(c, in, rc, o);
            }, ctx, Settings{});
            std::string rid;
            std::size_t polls = 0;
            bool        ready = false;
            zmqfake::onPoll   = [&](long) {
                for (auto &[from, m] : broker.router.allPub()) {
                    rid = from;
                    if (m.cmd == C(Ready)) ready = true;
                    else if (m.cmd != C(Disconnect)) replies.push_back(m);
                }
                if (polls == 0 && between) between(worker);
                if (polls < requests.size()) broker.send(rid, requests[polls]);
                else if (polls > requests.size()) worker.shutdown();
                ++polls;
                return true;
            };
            try {
                worker.run();
            } catch (const seq::Violation &) {
                throw;
            } catch (const std::exception &e) {
                seq::fail(std::string("exception left the worker's loop: ") + e.what());
            }
            SEQ_CHECK(ready, "the worker did not announce itself");
        }
        x.finish();
    }
};
Raw request(bool get, const std::string &topic, const std::string &body) { return { WRK, C(get ? Get : Set), "client", "id", topic, body, "", "RBAC=ADMIN,x" }; }
const std::vector<std::pair<std::string, int>> kTypes{ { "", YAS }, { "application/octet-stream", YAS }, { "application/x-opencmw-light", -1 }, { "application/x-cmw-light", -1 }, { "application/json", JSON }, { "text/html", JSON }, { "image/png", -2 }, { "nonsense", -1 } };

void contentTypes() {
    const auto types = [] {
        auto t = std::vector<std::pair<std::string, int>>{ { "", YAS }, { "nonsense/type", YAS } };
        t.emplace_back(std::string(MIME::BINARY.typeName()), YAS);
        t.emplace_back(std::string(MIME::CMWLIGHT.typeName()), CMW);
        t.emplace_back(std::string(MIME::JSON.typeName()), JSON);
        t.emplace_back(std::string(MIME::PNG.typeName()), -1);
        return t;
    }();
    const auto  &[type, proto] = types[static_cast<std::size_t>(seq::choose(static_cast<int>(types.size())))];
    const auto  &in    = inputs()[static_cast<std::size_t>(seq::choose(static_cast<int>(inputs().size())))];
    const bool   get   = seq::choose(2);
    const bool   empty = seq::choose(2);
    const auto   who   = seq::chooseFrom(std::vector<std::string>{ "", "me", "a b&c=%" });
    const int    n     = seq::chooseFrom(std::vector<int>{ 7, -3 });
    const int    replyType = seq::choose(4); // unchanged, or the handler changes it
    const bool   extra = seq::choose(2);    // unknown query parameter
    std::string  topic = "/svc";
    auto add = [&, first = true](const std::string &k, const std::string &v) mutable {
        topic += (first ? "?" : "&") + k + "=";
        for (unsigned char ch : v) {
            char b[4];
            if (isalnum(ch)) topic += static_cast<char>(ch);
            else { snprintf(b, sizeof b, "%%%02X", ch); topic += b; }
        }
        first = false;
    };
    if (!type.empty()) add("contentType", type);
    if (!who.empty()) add("who", who);
    if (n != 7) add("n", std::to_string(n));
    if (extra) add("unknown", "1");
    Run r;
    r.handler = [&](const Ctx &c, const In &i, Ctx &rc, Out &o) {
        o    = work(i, c);
        rc.n = c.n + 1;
        if (replyType == 1) rc.contentType = MIME::JSON;
        if (replyType == 2) rc.contentType = MIME::BINARY;
        if (replyType == 3) rc.contentType = MIME::CMWLIGHT;
    };
    const auto req = request(get, topic, empty || proto < 0 ? "" : encode(proto, in));
    r.go({ req });
    seq::transition();
    const std::string log = topic + (empty ? " without body" : " with body");
    SEQ_CHECK(r.replies.size() == 1, log + ": " + std::to_string(r.replies.size()) + " replies");
    const auto &rep = r.replies[0];
    SEQ_CHECK(rep.cmd == C(Final) && rep.svc == "client" && rep.id == "id" && rep.rbac == req.rbac, log + ": reply " + rep.str());
    if (proto < 0) { // cannot be decoded
        SEQ_CHECK(r.calls.empty() && !rep.err.empty() && rep.body.empty(), log + ": unsupported content type accepted, reply " + rep.str());
        return;
    }
    SEQ_CHECK(rep.err.empty(), log + ": failed with " + rep.err);
    SEQ_CHECK(r.calls.size() == 1, log + ": handler ran " + std::to_string(r.calls.size()) + " times");
    SEQ_CHECK(r.calls[0].first.n == n && r.calls[0].first.who == who, log + ": context changed");
    SEQ_CHECK(r.calls[0].second == (empty ? In{} : in), log + ": input changed");
    const bool known = !type.empty() && type != "nonsense/type";
    const int  outProto = replyType == 0 ? proto : replyType == 1 ? JSON : replyType == 2 ? YAS : CMW;
    SEQ_CHECK(rep.body == encode(outProto, work(empty ? In{} : in, r.calls[0].first)), log + ": reply body " + seq::quote(rep.body));
    auto q = query(rep.topic);
    SEQ_CHECK(rep.topic.starts_with("/svc"), log + ": reply topic " + rep.topic);
    std::map<std::string, std::string> want{ { "n", std::to_string(n + 1) } };
    if (!who.empty()) want["who"] = who;
    if (replyType) want["contentType"] = std::string(replyType == 1 ? MIME::JSON.typeName() : replyType == 2 ? MIME::BINARY.typeName() : MIME::CMWLIGHT.typeName());
    else if (known) want["contentType"] = type;
    q.erase("unknown");
    if (!q.contains("who") || q["who"].empty()) q.erase("who"); // absent and empty text are the same
    if (!known && !replyType) q.erase("contentType");           // "unknown"
    std::string got;
    for (auto &[k, v] : q) got += k + "=" + v + " ";
    SEQ_CHECK(q == want, log + ": reply context " + got + " in " + rep.topic);
}
void badContexts() { // query parameters that do not fit the context
    const auto  q = seq::chooseFrom(std::vector<std::string>{ "n=x", "n=", "n", "n=1e9", "n=99999999999", "n=-", "n=%201", "n=1x", "n=0x10", "who", "who=", "who=%41", "contentType=", "contentType", "n=1&n=2", "x", "=", "n=1&&who=a", "&", "%6e=1" });
    Run         r;
    r.go({ request(true, "/svc?" + q, ""), request(true, "/svc?n=1", "") });
    seq::transition();
    SEQ_CHECK(r.replies.size() == 2, "?" + q + ": " + std::to_string(r.replies.size()) + " replies to two requests");
    SEQ_CHECK(r.calls.size() == (r.replies[0].err.empty() ? 2u : 1u), "?" + q + ": handler ran although an error was reported, or not though none was");
    SEQ_CHECK(r.replies[1].err.empty() && r.calls.back().first.n == 1, "?" + q + ": the next request failed");
}
void corrupt(bool truncate) {
    const int  proto = seq::choose(NPROTO);
    const auto types = std::vector<std::string>{ std::string(MIME::BINARY.typeName()), std::string(MIME::CMWLIGHT.typeName()), std::string(MIME::JSON.typeName()) };
    std::string type = types[static_cast<std::size_t>(proto)];
    for (auto p = type.find('/'); p != std::string::npos; p = std::string::npos) type.replace(p, 1, "%2F");
    const auto &in = inputs()[static_cast<std::size_t>(1 + seq::choose(2))];
    auto        body = encode(proto, in);
    std::string what;
    if (truncate) {
        const auto n = static_cast<std::size_t>(seq::choose(static_cast<int>(body.size())));
        what         = "cut to " + std::to_string(n) + " of " + std::to_string(body.size()) + " bytes";
        body.resize(n);
        if (seq::choose(2)) { what += " and repeated"; body += body; }
    } else {
        const auto n = static_cast<std::size_t>(seq::choose(static_cast<int>(body.size())));
        static const std::vector<unsigned char> quick{ 0, 1, 0x7f, 0x80, 0xff, 0x20 };
        const auto old = static_cast<unsigned char>(body[n]);
        int        v;
        if (seq::thorough()) v = seq::choose(256);
        else {
            const int c = seq::choose(9);
            v           = c < 6 ? quick[static_cast<std::size_t>(c)] : c == 6 ? old + 1 : c == 7 ? old - 1 : old ^ 0x10;
        }
        body[n] = static_cast<char>(v);
        what    = "byte " + std::to_string(n) + " of " + std::to_string(body.size()) + " changed from " + std::to_string(old) + " to " + std::to_string(v & 255);
    }
    Run r;
    const auto good = request(false, "/svc?contentType=" + type, encode(proto, in));
    r.go({ request(false, "/svc?contentType=" + type, body), good });
    seq::transition();
    const std::string log = type + " " + what;
    SEQ_CHECK(r.replies.size() == 2, log + ": " + std::to_string(r.replies.size()) + " replies to two requests");
    SEQ_CHECK(r.calls.size() == (r.replies[0].err.empty() ? 2u : 1u), log + ": handler ran although an error was reported, or not though none was");
    SEQ_CHECK(r.replies[0].err.empty() || r.replies[0].body.empty(), log + ": error with a body");
    SEQ_CHECK(r.replies[1].err.empty() && r.calls.back().second == in && r.replies[1].body == encode(proto, work(in, Ctx{})), log + ": the next request failed");
    seq::state(std::to_string(r.replies[0].err.empty()));
}
void notifications() {
    const int  t  = seq::choose(4);
    const auto &in = inputs()[static_cast<std::size_t>(seq::choose(static_cast<int>(inputs().size())))];
    Ctx        c;
    c.who = seq::chooseFrom(std::vector<std::string>{ "", "x y" });
    c.n   = seq::chooseFrom(std::vector<int>{ 7, 12 });
    if (t == 1) c.contentType = MIME::JSON;
    if (t == 2) c.contentType = MIME::CMWLIGHT;
    if (t == 3) c.contentType = MIME::BINARY;
    Run  r;
    bool ok = false;
    r.go({}, [&](Svc &w) { ok = w.notify(c, work(in, c)); });
    seq::transition();
    SEQ_CHECK(ok, "notify() failed");
    SEQ_CHECK(r.replies.size() == 1 && r.replies[0].cmd == C(Notify), "notification sent " + std::to_string(r.replies.size()) + " times");
    SEQ_CHECK(r.replies[0].body == encode(t == 1 ? JSON : t == 2 ? CMW : YAS, work(in, c)), "notification body " + seq::quote(r.replies[0].body));
    auto q = query(r.replies[0].topic);
    SEQ_CHECK(q["n"] == std::to_string(c.n) && q["who"] == c.who && r.replies[0].topic.starts_with("/svc?"), "notification topic " + r.replies[0].topic);
}
const bool reg = [] {
    seq::add("C45_content_types", contentTypes);
    seq::add("C45_bad_contexts", badContexts);
    seq::add("C45_truncated", [] { corrupt(true); });
    seq::add("C45_corrupted", [] { corrupt(false); });
    seq::add("C45_notifications", notifications);
    return true;
}();
} // namespace
