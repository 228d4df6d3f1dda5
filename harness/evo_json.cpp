// C30: JSON
#include "ser_evo.hpp"
#include "ser_json.hpp"
namespace {
using namespace evo;
std::string fields(const std::vector<Field> &fs) {
    Render r{ 1, 0, false, {} };
    r.list('{', fs, '}', [&](const Field &f) {
        r.str(f.name, true);
        r.out += ": ";
        switch (f.kind) {
        case K::I: r.value(f.i()); break;
        case K::L: r.value(f.l()); break;
        case K::S: r.value(f.t()); break;
        case K::D: r.value(f.d()); break;
        case K::VD: r.value(f.vd()); break;
        case K::VS: r.value(f.vs()); break;
        case K::MA: r.value(f.ma()); break;
        case K::MSI: r.value(f.msi()); break;
        case K::Nest: r.out += fields(f.sub); break;
        }
    });
    return r.out;
}
const int registered = [] {
    seq::add("C30_json", [] { evo::run<Json>(fields, false, false); });
    seq::add("C30_json_unknown", [] { // every kind of value, in every notation, in a field the object does not know
        static const std::vector<std::string> scalars{ "null", "true", "false", "0", "-1", "1e5", "1E5", "-1.5E-7", "12.25e+3", "\"\"", "\"a\\\"b\"", "\"\\\\\"", "\"\\\\\\\"\"", "\"}\"", "\"]\"", "\"{[\"", "\",\"", "\": \\\"a\\\"\"", "\"\\u0022\"", "\"null\"", "\"\xc3\xa4\"" };
        const auto x = seq::chooseFrom(scalars), y = seq::chooseFrom(scalars);
        static const std::vector<std::string> spaces{ "", " ", "\n\t " };
        const auto  ws = seq::chooseFrom(spaces);
        std::string v;
        switch (seq::choose(8)) {
        case 0: v = x; break;
        case 1: v = "[" + ws + x + ws + "," + ws + y + ws + "]"; break;
        case 2: v = "{" + ws + "\"k\"" + ws + ":" + ws + x + ws + "," + ws + "\"l\"" + ws + ":" + ws + y + ws + "}"; break;
        case 3: v = "[[" + ws + x + "]" + ws + ",[]" + ws + "," + ws + "{}," + y + "]"; break;
        case 4: v = "{\"k\":[" + x + ws + "]" + ws + ",\"l\":{" + ws + "}" + ws + ",\"a\":" + y + "}"; break;
        case 5: v = "[{\"a\":" + ws + x + "}" + ws + "," + ws + "[" + y + "]" + ws + "]"; break;
        case 6: v = "{\"a\\\"}\":" + x + ",\"\":" + y + "}"; break;
        case 7: v = "[" + ws + "]"; break;
        }
        const int   place = seq::choose(3); // first, between, last
        const std::string u = "\"u\"" + ws + ":" + ws + v + ws, a = "\"a\":7", s = "\"s\":\"z\"";
        const std::string w = place == 0 ? "{" + u + "," + a + "," + s + "}" : place == 1 ? "{" + a + "," + ws + u + "," + s + "}" : "{" + a + "," + s + "," + u + "}";
        Evo              e;
        DeserialiserInfo info;
        IoBuffer         b(w.data(), w.size());
        try {
            info = deserialise<Json, ProtocolCheck::LENIENT>(b, e);
        } catch (...) { seq::fail("lenient reading throws '" + what() + "' for " + seq::quote(w)); }
        seq::transition();
        SEQ_CHECK(e.a == 7 && e.s == "z" && e.v == std::vector<double>{ 9.0 }, "the known fields next to an unknown one are not read from " + seq::quote(w));
        SEQ_CHECK(info.additionalFields.size() == 1 && info.exceptions.size() == 1, "the unknown field is not reported, or more than that, for " + seq::quote(w));
    });
    seq::add("C30_json_wide", [] { ser::nonFinite = false; evo::wide<Json, Wide>(); });
    seq::add("C30_json_wide_binary", [] { ser::nonFinite = false; evo::wide<Json, WideBinary>(); });
    return 0;
}();
} // namespace
