// C36: query parameter serialiser
#include "seq.h"
#include <cmath>
#include <limits>
#include <majordomo/SubscriptionMatcher.hpp>
#include <QuerySerialiser.hpp>
#include <Topic.hpp>
#include <URI.hpp>

using namespace opencmw;
struct QAll {
    std::string    text = "dflt";
    bool           flag = false;
    int            num  = 7;
    int64_t        big  = 8;
    int16_t        small = 9;
    double         real = 1.5;
    float          flt  = 2.5f;
    MIME::MimeType contentType = MIME::UNKNOWN;
    TimingCtx      ctx;
    Annotated<std::string, NoUnit, "an annotated text"> note = std::string("n0");
};
ENABLE_REFLECTION_FOR(QAll, text, flag, num, big, small, real, flt, contentType, ctx, note)
struct QNone { int x = 1; };
ENABLE_REFLECTION_FOR(QNone, x)
struct QTwo { int x = 1; MIME::MimeType a = MIME::CMWLIGHT; MIME::MimeType b = MIME::JSON; };
ENABLE_REFLECTION_FOR(QTwo, x, a, b)

namespace {
bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b)); }
bool equal(const QAll &a, const QAll &b) {
    return a.text == b.text && a.flag == b.flag && a.num == b.num && a.big == b.big && a.small == b.small && same(a.real, b.real) && same(a.flt, b.flt) && a.contentType == b.contentType && a.ctx == b.ctx && a.note.value() == b.note.value();
}
std::string show(const QAll &a) { return std::format("text={} flag={} num={} big={} small={} real={} flt={} type={} ctx={} note={}", seq::quote(a.text), a.flag, a.num, a.big, a.small, a.real, a.flt, a.contentType.typeName(), a.ctx.toString(), seq::quote(a.note.value())); }
const std::vector<std::string> texts = { "x", "", "a&b=c#d?e%20;/+", std::string("\x01\xff\x80 ", 4), "true", "dflt" };
const std::vector<double>      reals = { 0.0, 1.0, -1.0, 0.1, 1e-10, 1.0 / 3.0, 1e300, -2.2250738585072014e-308, 5e-324, 123456789.123456789, std::numeric_limits<double>::max(), std::numeric_limits<double>::infinity() };
const std::vector<float>       flts  = { 0.f, 1.f, -1.5f, 0.1f, 1e-10f, 1.f / 3.f, std::numeric_limits<float>::max(), std::numeric_limits<float>::denorm_min() };
const std::vector<int64_t>     ints  = { 0, 1, -1, 127, -32768, 32767, INT32_MAX, INT32_MIN, INT64_MAX, INT64_MIN };
void roundTrip(const QAll &q) {
    auto m = query::serialise(q);
    seq::transition(2);
    auto back = query::deserialise<QAll>(m);
    SEQ_CHECK(equal(q, back), "object " + show(q) + " comes back as " + show(back));
    // through a URI (an empty text value is not distinguishable from an absent one there)
    if (q.text.empty() || q.note.value().empty()) return;
    auto uri   = URI<STRICT>::factory(URI<STRICT>("mdp://h/s")).setQuery(m).build();
    auto again = query::deserialise<QAll>(URI<STRICT>(std::string(uri.str())).queryParamMap());
    SEQ_CHECK(equal(q, again), "object " + show(q) + " comes back from " + std::string(uri.str()) + " as " + show(again));
    auto topic = mdp::Topic::fromMdpTopic(uri);
    SEQ_CHECK(equal(q, query::deserialise<QAll>(mdp::Topic::fromZmqTopic(topic.toZmqTopic()).params())), "object " + show(q) + " is not recovered from topic " + topic.toZmqTopic());
    // a notification about exactly this object matches a subscription to it
    majordomo::SubscriptionMatcher matcher;
    query::registerTypes(QAll(), matcher);
    SEQ_CHECK(matcher(topic, topic), "topic " + topic.toZmqTopic() + " does not match itself");
    QAll other = q;
    other.num  = q.num == 3 ? 4 : 3;
    auto m2    = query::serialise(other);
    auto t2    = mdp::Topic::fromString("/s", { m2.begin(), m2.end() });
    SEQ_CHECK(!matcher(topic, t2), "topics that differ in a number match");
}
void roundTrips() {
    QAll q;
    q.text        = seq::chooseFrom(texts);
    q.flag        = seq::choose(2);
    q.real        = seq::chooseFrom(reals);
    q.contentType = seq::choose(2) ? MIME::HTML : MIME::CMWLIGHT;
    q.ctx         = seq::choose(2) ? TimingCtx(1, 2, -1, 4) : TimingCtx();
    q.note        = std::string(seq::chooseFrom(texts));
    roundTrip(q);
}
void numbers() {
    QAll q;
    q.big   = seq::chooseFrom(ints);
    q.num   = static_cast<int>(seq::chooseFrom(ints));
    q.small = static_cast<int16_t>(seq::chooseFrom(ints));
    q.flt   = seq::chooseFrom(flts);
    roundTrip(q);
}
void types() {
    QAll q;
    q.contentType = MIME::ALL[static_cast<size_t>(seq::choose(static_cast<int>(MIME::ALL.size())))];
    roundTrip(q);
    SEQ_CHECK(query::getMimeType(q) == q.contentType, "content type of the query object not found");
    SEQ_CHECK(query::getMimeType(QNone()) == MIME::UNKNOWN && query::getMimeType(QTwo()) == MIME::CMWLIGHT, "content type of a query object without or with two types");
}
// arbitrary parameter maps: never throws, missing or malformed fields keep their default, others are taken
void malformed() {
    using O = std::optional<std::string>;
    query::QueryMap m;
    QAll            want;
    if (int c = seq::choose(4)) { O v[] = { O{}, O{ "abc" }, O{ "" } }; m["text"] = v[c - 1]; if (v[c - 1]) want.text = *v[c - 1]; }
    if (int c = seq::choose(6)) { O v[] = { O{}, O{ "true" }, O{ "false" }, O{ "TRUE" }, O{ "1" } }; m["flag"] = v[c - 1]; want.flag = c == 1 || c == 2; }
    if (int c = seq::choose(10)) { O v[] = { O{}, O{ "" }, O{ "42" }, O{ "-42" }, O{ "42x" }, O{ "x" }, O{ "99999999999" }, O{ " 1" }, O{ "1.5" } }; m["num"] = v[c - 1]; if (c == 3) want.num = 42; if (c == 4) want.num = -42; }
    if (int c = seq::choose(7)) { O v[] = { O{}, O{ "" }, O{ "0.25" }, O{ "1e3" }, O{ "1e999" }, O{ "1.5.2" } }; m["real"] = v[c - 1]; if (c == 3) want.real = .25; if (c == 4) want.real = 1000; }
    if (int c = seq::choose(4)) { O v[] = { O{}, O{ "text/html" }, O{ "gibberish" } }; m["contentType"] = v[c - 1]; if (c == 2) want.contentType = MIME::HTML; }
    if (int c = seq::choose(6)) { O v[] = { O{}, O{ "" }, O{ "FAIR.SELECTOR.C=2" }, O{ "FAIR.SELECTOR.C=x" }, O{ "bogus" } }; m["ctx"] = v[c - 1]; if (c == 3) want.ctx = TimingCtx(2); }
    if (seq::choose(2)) m["unrelated"] = "1";
    if (seq::choose(2)) m["Num"] = "1";
    auto got = query::deserialise<QAll>(m);
    seq::transition();
    SEQ_CHECK(equal(got, want), "parameters give " + show(got) + " instead of " + show(want));
}
const int registered = [] {
    seq::add("C36_round_trips", roundTrips);
    seq::add("C36_numbers", numbers);
    seq::add("C36_types", types);
    seq::add("C36_malformed", malformed);
    return 0;
}();
} // namespace
