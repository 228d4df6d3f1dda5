#pragma once
// C30: messages whose fields differ from the fields of the object they are read into
#include "ser_common.hpp"
struct EvoIn {
    int32_t     x = 1;
    std::string y = "y0";
};
ENABLE_REFLECTION_FOR(EvoIn, x, y)
struct Evo {
    int32_t                                                                 a = 1;
    std::string                                                             s = "s0";
    EvoIn                                                                   in;
    std::vector<double>                                                     v   = { 9.0 };
    Annotated<double, units::isq::si::length<units::isq::si::metre>, "len"> len = 2.0;
    Annotated<int32_t, NoUnit, "ro", ExternalModifier::RO>                  ro  = 3;
};
ENABLE_REFLECTION_FOR(Evo, a, s, in, v, len, ro)
struct Wide { // a field of each kind the object read does not know, between two it knows
    int32_t                  a = 5;
    bool                     ub = false;
    int8_t                   ui8 = 0;
    int16_t                  ui16 = 0;
    int64_t                  ui64 = 0;
    float                    uf = 0;
    double                   ud = 0;
    std::string              us;
    std::vector<int8_t>      uvi8;
    std::vector<int16_t>     uvi16;
    std::vector<int32_t>     uvi32;
    std::vector<int64_t>     uvi64;
    std::vector<float>       uvf;
    std::vector<double>      uvd;
    std::vector<std::string> uvs;
    std::array<int32_t, 3>   ua3{};
    Inner                    uin;
    std::set<int32_t>        uset;
    std::map<std::string, int32_t> umap;
    Annotated<double, units::isq::si::length<units::isq::si::metre>, "a length"> ulength = 0.0;
    std::string              s = "S";
};
ENABLE_REFLECTION_FOR(Wide, a, ub, ui8, ui16, ui64, uf, ud, us, uvi8, uvi16, uvi32, uvi64, uvf, uvd, uvs, ua3, uin, uset, umap, ulength, s)
struct WideBinary {
    int32_t                 a = 5;
    std::vector<bool>       uvb;
    MultiArray<int32_t, 1>  um1;
    MultiArray<double, 2>   um2;
    MultiArray<float, 3>    um3;
    Inner                   uin;
    std::string             s = "S";
};
ENABLE_REFLECTION_FOR(WideBinary, a, uvb, um1, um2, um3, uin, s)
namespace evo {
// written by another version of the object that has more fields
template<typename P, typename W>
void wide() {
    const W  w = ser::choosePair<W>(!seq::thorough());
    IoBuffer b;
    serialise<P>(b, w);
    const std::string wire(reinterpret_cast<const char *>(b.data()), b.size());
    auto read = [&]<ProtocolCheck C>(const char *level) {
        Evo              e;
        DeserialiserInfo info;
        IoBuffer         r(wire.data(), wire.size());
        try {
            info = deserialise<P, C>(r, e);
        } catch (...) { seq::fail(std::string(level) + ": reading a message with unknown fields throws '" + what() + "'; wire: " + seq::quote(wire.substr(0, 1500))); }
        seq::transition();
        SEQ_CHECK(e.a == w.a && e.s == w.s && ser::same(Evo{}.in, e.in) && ser::same(Evo{}.v, e.v), std::string(level) + ": the known fields around unknown ones are not read correctly; wire: " + seq::quote(wire.substr(0, 1500)));
        if (C == ProtocolCheck::LENIENT) /* (YaS, YAML: the other name of the whole object is reported as well) */ SEQ_CHECK(info.additionalFields.size() == refl::reflect<W>().members.size - 2 && info.exceptions.size() >= info.additionalFields.size(), std::string(level) + ": not every unknown field is reported once; wire: " + seq::quote(wire.substr(0, 1500)));
    };
    read.template operator()<ProtocolCheck::LENIENT>("lenient");
    read.template operator()<ProtocolCheck::IGNORE>("unchecked");
}
struct Field {
    enum Kind { I, S, D, L, VD, VS, MA, MSI, Nest } kind;
    std::string        name;
    int                n = 0; // value parameter
    std::string        unit;
    std::vector<Field> sub;
    int32_t                        i() const { return 100 + n; }
    int64_t                        l() const { return -5 - n; }
    double                         d() const { return 0.5 + n; }
    std::string                    t() const { return "text" + std::to_string(n); }
    std::vector<double>            vd() const { return { 1.5 * n, 2.5 }; }
    std::vector<std::string>       vs() const { return { "one", "", t() }; }
    MultiArray<double, 2>          ma() const { MultiArray<double, 2> m(std::array<uint32_t, 2>{ 2, 3 }); for (size_t k = 0; k < 6; ++k) m.elements()[k] = static_cast<double>(k) + n; return m; }
    std::map<std::string, int32_t> msi() const { return { { "k1", n }, { "k2", -1 } }; }
};
using K = Field::Kind;
// what happens to each field
struct Model {
    Evo                    value;
    std::set<std::string>  set;        // "a", "in", "in.x", ...
    std::vector<std::string> additional; // unknown fields in order
    int                    mismatches = 0; // wrong type or unit
};
inline Model expect(const std::vector<Field> &fs, bool typed, bool units, bool ignore) {
    Model m;
    for (auto &f : fs) {
        auto wrong = [&] { ++m.mismatches; };
        if (f.name == "a") { if (f.kind == K::I) { m.value.a = f.i(); m.set.insert("a"); } else wrong(); }
        else if (f.name == "s") { if (f.kind == K::S) { m.value.s = f.t(); m.set.insert("s"); } else wrong(); }
        else if (f.name == "v") { if (f.kind == K::VD) { m.value.v = f.vd(); m.set.insert("v"); } else wrong(); }
        else if (f.name == "len") {
            if (f.kind != K::D) wrong();
            else if (units && !ignore && f.unit != "m") wrong();
            else { m.value.len = f.d(); m.set.insert("len"); }
        } else if (f.name == "ro") {
            if (ignore) m.value.ro = f.i(); // unchecked reading ignores the access modifiers
            else wrong();
        } else if (f.name == "in") {
            if (f.kind != K::Nest) { wrong(); continue; }
            m.set.insert("in");
            m.set.erase("in.x");
            m.set.erase("in.y");
            for (auto &g : f.sub) {
                if (g.name == "x") { if (g.kind == K::I) { m.value.in.x = g.i(); m.set.insert("in.x"); } else wrong(); }
                else if (g.name == "y") { if (g.kind == K::S) { m.value.in.y = g.t(); m.set.insert("in.y"); } else wrong(); }
                else m.additional.push_back("in::" + g.name);
            }
        } else m.additional.push_back("root::" + f.name);
    }
    return m;
}
inline std::vector<Field> alphabet(bool typed, bool units, bool emptyStructs) {
    std::vector<Field> a;
    a.push_back({ K::I, "a", 1 });
    a.push_back({ K::S, "s", 2 });
    a.push_back({ K::VD, "v", 3 });
    a.push_back({ K::D, "len", 4, "m" });
    a.push_back({ K::Nest, "in", 0, "", { { K::S, "y", 5 }, { K::I, "x", 6 } } });
    a.push_back({ K::Nest, "in", 0, "", { { K::VD, "u", 7 }, { K::I, "x", 8 }, { K::Nest, "w", 0, "", { { K::I, "x", 9 }, { K::S, "y", 9 } } } } });
    if (emptyStructs) a.push_back({ K::Nest, "in", 0, "", {} });
    a.push_back({ K::I, "u1", 1 });
    a.push_back({ K::S, "u2", 1 });
    a.push_back({ K::VS, "u3", 1 });
    a.push_back({ K::Nest, "u4", 0, "", { { K::I, "a", 11 }, { K::Nest, "in", 0, "", { { K::I, "x", 12 } } }, { K::S, "s", 13 } } });
    a.push_back({ K::MSI, "u5", 1 });
    a.push_back({ K::MA, "u6", 1 });
    a.push_back({ K::I, "a", 21 }); // repeated
    a.push_back({ K::I, "ro", 22 });
    if (typed) {
        a.push_back({ K::S, "a", 14 });
        a.push_back({ K::VS, "a", 14 });
        a.push_back({ K::Nest, "a", 0, "", { { K::I, "a", 11 } } });
        a.push_back({ K::L, "s", 15 });
        a.push_back({ K::I, "v", 16 });
        a.push_back({ K::VS, "v", 16 });
        if (!units) a.push_back({ K::MA, "v", 16 }); // YaS does not distinguish vectors and matrices by their type identifier
        a.push_back({ K::I, "in", 17 });
        a.push_back({ K::VS, "in", 17 });
        a.push_back({ K::Nest, "in", 0, "", { { K::S, "x", 18 }, { K::S, "y", 19 } } });
        a.push_back({ K::S, "len", 20, "m" });
    }
    if (units) {
        a.push_back({ K::D, "len", 21, "km" });
        a.push_back({ K::D, "len", 22, "" });
        a.push_back({ K::D, "len", 23, "m*" }); // same unit, other quantity
    }
    return a;
}
inline std::string describe(const std::vector<Field> &fs) {
    static const char *k[] = { "int", "text", "double", "long", "doubles", "texts", "matrix", "map", "struct" };
    std::string        r;
    for (auto &f : fs) r += " " + f.name + ":" + k[f.kind] + (f.kind == K::Nest ? "{" + describe(f.sub) + " }" : "") + (f.unit.empty() || f.unit == "m" ? "" : "[" + f.unit + "]");
    return r;
}
template<typename P, typename Encode>
void run(Encode encode, bool typed, bool units, bool emptyStructs = true, bool emptyRoot = true, int depth = 0) {
    static const std::vector<Field> letters = alphabet(typed, units, emptyStructs);
    const int                       len     = (emptyRoot ? 0 : 1) + seq::choose((depth ? depth : seq::thorough() ? 5 : 4) + (emptyRoot ? 1 : 0));
    std::vector<Field>              fs;
    for (int i = 0; i < len; ++i) fs.push_back(letters[static_cast<size_t>(seq::choose(static_cast<int>(letters.size())))]);
    const std::string w = encode(fs);
    auto ctx = [&] { return "\nmessage:" + describe(fs) + "\nwire: " + seq::quote(std::string_view(w).substr(0, 1500)); };
    auto read = [&]<ProtocolCheck C>(const char *level) {
        const Model m = expect(fs, typed, units, C == ProtocolCheck::IGNORE);
        const bool  clean = m.mismatches == 0 && m.additional.empty();
        Evo              e;
        DeserialiserInfo info;
        IoBuffer         b(w.data(), w.size());
        try {
            info = deserialise<P, C>(b, e);
        } catch (const ProtocolException &x) {
            if (C == ProtocolCheck::ALWAYS && !clean) { seq::transition(); return; }
            seq::fail(std::string(level) + ": reading throws '" + x.what() + "'" + ctx());
        } catch (...) { seq::fail(std::string(level) + ": reading throws '" + what() + "'" + ctx()); }
        SEQ_CHECK(C != ProtocolCheck::ALWAYS || clean, "reading with checks accepts a message that does not match the object" + ctx());
        if (!ser::same(m.value, e)) seq::fail(std::string(level) + ": field '" + ser::firstDifference(m.value, e) + "' is wrong" + ctx());
        if (C == ProtocolCheck::IGNORE) SEQ_CHECK(info.exceptions.empty(), std::string("unchecked reading reports: ") + info.exceptions.front().what() + ctx());
        else {
            SEQ_CHECK(info.exceptions.size() == static_cast<size_t>(m.mismatches) + m.additional.size(), std::string(level) + ": " + std::to_string(info.exceptions.size()) + " problems are reported instead of " + std::to_string(static_cast<size_t>(m.mismatches) + m.additional.size()) + (info.exceptions.empty() ? std::string() : std::string(", last: ") + info.exceptions.back().what()) + ctx());
            std::vector<std::string> add;
            for (auto &[n, id] : info.additionalFields) add.push_back(n);
            SEQ_CHECK(add == m.additional, std::string(level) + ": the fields unknown to the object are not reported correctly" + ctx());
            for (auto &[cls, names] : std::vector<std::pair<std::string, std::vector<std::string>>>{ { "root", { "a", "s", "in", "v", "len", "ro" } }, { "in", { "x", "y" } } }) {
                const auto it = info.setFields.find(cls);
                for (size_t i = 0; i < names.size(); ++i) {
                    const bool isSet = it != info.setFields.end() && it->second.size() > i && it->second[i];
                    SEQ_CHECK(isSet == (m.set.count(cls == "root" ? names[i] : "in." + names[i]) > 0), std::string(level) + ": the set-flag of " + names[i] + " is wrong" + ctx());
                }
            }
        }
        seq::transition();
    };
    read.template operator()<ProtocolCheck::LENIENT>("lenient");
    read.template operator()<ProtocolCheck::ALWAYS>("checked");
    read.template operator()<ProtocolCheck::IGNORE>("unchecked");
}
} // namespace evo
