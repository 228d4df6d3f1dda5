// C30: YaS
#include "ser_evo.hpp"
#include "ser_yas.hpp"
namespace {
using namespace evo;
std::string fields(const std::vector<Field> &fs) {
    std::string r;
    for (auto &f : fs) {
        auto put = [&](const auto &v) {
            auto e = encode(v);
            // the meta information of the reading object is compared; description does not matter
            r += header(e.id, f.name, f.unit.empty() ? "" : text(f.unit == "m*" ? "m" : f.unit) + text(f.unit == "m" ? Annotated<double, units::isq::si::length<units::isq::si::metre>, "len">(0.0).getQuantity() : "other") + text("description") + raw(uint8_t(0)), e.data.size()) + e.data;
        };
        switch (f.kind) {
        case K::I: put(f.i()); break;
        case K::L: put(f.l()); break;
        case K::S: put(f.t()); break;
        case K::D: put(f.d()); break;
        case K::VD: put(f.vd()); break;
        case K::VS: put(f.vs()); break;
        case K::MA: put(f.ma()); break;
        case K::MSI: put(f.msi()); break;
        case K::Nest: { std::string b = fields(f.sub) + header(0xFE, f.name, "", 0); r += header(0, f.name, "", b.size()) + b; break; }
        }
    }
    return r;
}
std::string message(const std::vector<Field> &fs) {
    std::string b = fields(fs) + header(0xFE, "Evo", "", 0);
    return raw(int32_t(-1)) + text("YaS") + "\x01" + std::string(2, '\0') + header(0, "Evo", "", b.size()) + b;
}
const int registered = [] {
    seq::add("C30_yas", [] { evo::run<YaS>(message, true, true); });
    seq::add("C30_yas_header", [] { // messages of other protocol versions, or of another protocol
        std::string w = message({ { K::I, "a", 1 }, { K::S, "s", 2 } });
        const int   what = seq::choose(4);
        const int   v    = seq::choose(256);
        static constexpr size_t major = 4 + 4 + 4, minor = major + 1, micro = major + 2;
        bool fits = what == 2 || what == 3 ? true : false;
        if (what == 0) { if (v == 1) fits = true; w[major] = static_cast<char>(v); }
        if (what == 1) { if (v == 'S') fits = true; if (v == 0) return; w[4 + 4 + 2] = static_cast<char>(v); }
        if (what == 2) w[minor] = static_cast<char>(v);
        if (what == 3) w[micro] = static_cast<char>(v);
        auto ctx = [&] { return "\nwire: " + seq::quote(w); };
        auto read = [&]<ProtocolCheck C>(const char *level) {
            Evo              e;
            DeserialiserInfo info;
            IoBuffer         b(w.data(), w.size());
            bool             threw = false;
            try {
                info = deserialise<YaS, C>(b, e);
            } catch (const ProtocolException &) { threw = true; } catch (...) { seq::fail(std::string(level) + ": reading throws '" + ::what() + "'" + ctx()); }
            seq::transition();
            if (fits) SEQ_CHECK(!threw && info.exceptions.empty() && e.a == 101 && e.s == "text2", std::string(level) + ": a message of a compatible version is not read" + ctx());
            else if (C == ProtocolCheck::ALWAYS) SEQ_CHECK(threw, "checked reading accepts a message of an incompatible version or protocol" + ctx());
            else if (C == ProtocolCheck::LENIENT) SEQ_CHECK(!info.exceptions.empty() || threw, "lenient reading does not report the incompatible version or protocol" + ctx());
        };
        read.template operator()<ProtocolCheck::LENIENT>("lenient");
        read.template operator()<ProtocolCheck::ALWAYS>("checked");
        read.template operator()<ProtocolCheck::IGNORE>("unchecked");
    });
    seq::add("C30_yas_wide", [] { evo::wide<YaS, Wide>(); });
    seq::add("C30_yas_wide_binary", [] { evo::wide<YaS, WideBinary>(); });
    return 0;
}();
} // namespace
