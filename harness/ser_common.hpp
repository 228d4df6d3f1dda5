// common parts of the serialiser harnesses: data types, candidate values, member-wise comparison
#pragma once
#include "seq.h"
#include <bit>
#include <cmath>
#include <cstring>
#include <functional>
#include <IoSerialiser.hpp>
#include <limits>
#include <map>
#include <memory>
#include <set>

using namespace opencmw;

struct Scalars {
    bool        b   = false;
    int8_t      i8  = 0;
    int16_t     i16 = 0;
    int32_t     i32 = 0;
    int64_t     i64 = 0;
    float       f   = 0;
    double      d   = 0;
    std::string s;
};
ENABLE_REFLECTION_FOR(Scalars, b, i8, i16, i32, i64, f, d, s)
struct Arrays {
    std::vector<bool>          vb;
    std::vector<int8_t>        vi8;
    std::vector<int16_t>       vi16;
    std::vector<int32_t>       vi32;
    std::vector<int64_t>       vi64;
    std::vector<float>         vf;
    std::vector<double>        vd;
    std::vector<std::string>   vs;
    std::array<int32_t, 3>     a3{};
    std::array<double, 2>      a2{};
};
ENABLE_REFLECTION_FOR(Arrays, vb, vi8, vi16, vi32, vi64, vf, vd, vs, a3, a2)
struct Shapes {
    MultiArray<int32_t, 1> m1;
    MultiArray<double, 2>  m2;
    MultiArray<float, 3>   m3;
    MultiArray<int16_t, 2> k2;
};
ENABLE_REFLECTION_FOR(Shapes, m1, m2, m3, k2)
struct Leaf {
    int32_t             n = 0;
    std::vector<double> v;
};
ENABLE_REFLECTION_FOR(Leaf, n, v)
struct Inner {
    int16_t     k = 0;
    Leaf        leaf;
    std::string t;
};
ENABLE_REFLECTION_FOR(Inner, k, leaf, t)
struct Tree {
    int32_t                                                                    before = 0;
    Inner                                                                      inner;
    Annotated<double, units::isq::si::length<units::isq::si::metre>, "a length"> length = 0.0;
    Annotated<std::string, NoUnit, "a text", ExternalModifier::RW, "group">     text   = std::string();
    Leaf                                                                       leaf;
    Annotated<std::vector<int32_t>, NoUnit, "a list">                           list = std::vector<int32_t>();
    int64_t                                                                    after = 0;
};
ENABLE_REFLECTION_FOR(Tree, before, inner, length, text, leaf, list, after)
struct Pointers {
    std::unique_ptr<int32_t>     ui;
    std::shared_ptr<std::string> ss;
    std::unique_ptr<Leaf>        ul;
    std::shared_ptr<Inner>       si;
    int32_t                      last = 0;
};
ENABLE_REFLECTION_FOR(Pointers, ui, ss, ul, si, last)
struct Optional {
    std::shared_ptr<int32_t> o;
};
ENABLE_REFLECTION_FOR(Optional, o)
struct Nested { // possibly empty structures next to each other and at the end
    Optional              first;
    Leaf                  second;
    Optional              third;
    std::unique_ptr<Leaf> fourth;
    int32_t               fifth = 0;
    Inner                 sixth;
    Optional              last;
};
ENABLE_REFLECTION_FOR(Nested, first, second, third, fourth, fifth, sixth, last)
struct Big {
    int32_t                  before = 0;
    std::string              text;
    std::vector<int8_t>      bytes;
    std::vector<double>      numbers;
    std::vector<std::string> texts;
    Leaf                     leaf;
    int32_t                  after = 0;
};
ENABLE_REFLECTION_FOR(Big, before, text, bytes, numbers, texts, leaf, after)
struct Names { // "x_" in front of a name is not part of the field's name, everything else is
    int32_t a_b = 0;
    int32_t x_class = 0;
    int32_t m_ = 0;
    int32_t X_y = 0;
    Leaf    x_struct;
    Leaf    y_leaf;
    int32_t xx_ = 0;
    int32_t a_very_long_name_of_a_field_that_does_not_fit_into_any_small_buffer_of_a_string = 0;
    int32_t a = 0;
};
ENABLE_REFLECTION_FOR(Names, a_b, x_class, m_, X_y, x_struct, y_leaf, xx_, a_very_long_name_of_a_field_that_does_not_fit_into_any_small_buffer_of_a_string, a)

namespace ser {
inline std::string fieldName(std::string_view n) { return std::string(n.starts_with("x_") ? n.substr(2) : n); }
template<typename T>
struct is_ptr : std::false_type {};
template<typename T>
struct is_ptr<std::unique_ptr<T>> : std::true_type {};
template<typename T>
struct is_ptr<std::shared_ptr<T>> : std::true_type {};

// member-wise equality: floating-point values bit by bit (all NaNs are one value), null and set pointers differ
template<typename T>
bool same(const T &a, const T &b) {
    if constexpr (std::is_floating_point_v<T>) return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b));
    else if constexpr (std::is_arithmetic_v<T> || std::is_same_v<T, std::string>) return a == b;
    else if constexpr (is_annotated<T>) return same(a.value(), b.value());
    else if constexpr (is_ptr<T>::value) return (!a && !b) || (a && b && same(*a, *b));
    else if constexpr (isReflectableClass<T>()) {
        bool ok = true;
        for_each(refl::reflect<T>().members, [&](const auto member, auto) { ok = ok && same(member(a), member(b)); });
        return ok;
    } else if constexpr (MultiArrayType<T>) {
        for (uint32_t i = 0; i < T::n_dims_; ++i)
            if (a.stride(i) != b.stride(i) || a.offset(i) != b.offset(i)) return false;
        return a.dimensions() == b.dimensions() && a.element_count() == b.element_count() && same(a.elements(), b.elements());
    } else if constexpr (std::is_same_v<T, std::vector<bool>>) return a == b;
    else if constexpr (requires { typename T::mapped_type; }) {
        if (a.size() != b.size()) return false;
        for (const auto &[k, v] : a) {
            auto it = b.find(k);
            if (it == b.end() || !same(v, it->second)) return false;
        }
        return true;
    } else if constexpr (requires { typename T::key_type; }) return a == b;
    else {
        if (a.size() != b.size()) return false;
        for (size_t i = 0; i < a.size(); ++i)
            if (!same(a[i], b[i])) return false;
        return true;
    }
}
template<typename S>
std::string firstDifference(const S &a, const S &b) {
    std::string r = "nothing";
    for_each(refl::reflect<S>().members, [&](const auto member, auto) { if (!same(member(a), member(b)) && r == "nothing") r = std::string(std::string_view(member.name)); });
    return r;
}
// candidate values
template<typename T>
struct Candidates;
template<>
struct Candidates<bool> { static std::vector<bool> get() { return { false, true }; } };
template<typename T>
    requires std::is_integral_v<T>
struct Candidates<T> { static std::vector<T> get() { return { T(0), T(1), T(-1), std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), T(100), T('"') }; } };
inline bool nonFinite = true; // protocols without a representation for infinity / not-a-number switch this off
template<typename T>
    requires std::is_floating_point_v<T>
struct Candidates<T> {
    static std::vector<T> get() {
        std::vector<T> r{ T(0), T(-0.0), T(1), T(-1.5), T(0.1), T(1) / T(3), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(), T(1e10), T(123456789.123456789) };
        if (nonFinite) {
            r.push_back(std::numeric_limits<T>::infinity());
            r.push_back(-std::numeric_limits<T>::infinity());
            r.push_back(std::numeric_limits<T>::quiet_NaN());
        }
        return r;
    }
};
inline std::vector<std::string> textCandidates = { "", "x", "hello world", "a\"b\\c/d\b\f\n\r\te", std::string("nul\0nul", 7), "\xc3\xa4\xe2\x82\xac\xf0\x9f\x98\x80", "\x01\x1f\x7f", "{\"k\": [1, 2]}", "# no : comment, [here] - ...", std::string(300, 'L') };
template<>
struct Candidates<std::string> { static std::vector<std::string> get() { return textCandidates; } };
template<typename T>
struct Candidates<std::vector<T>> {
    static std::vector<std::vector<T>> get() {
        std::vector<std::vector<T>> r;
        auto                        c = Candidates<T>::get();
        r.push_back({});
        for (size_t i = 0; i < c.size(); ++i) r.push_back({ T(c[i]) });
        r.push_back(std::vector<T>(c.begin(), c.end()));
        r.push_back(std::vector<T>(c.rbegin(), c.rend()));
        if (!std::is_same_v<T, std::string>) r.push_back(std::vector<T>(200, T(c[1])));
        return r;
    }
};
template<typename T, size_t N>
struct Candidates<std::array<T, N>> {
    static std::vector<std::array<T, N>> get() {
        std::vector<std::array<T, N>> r;
        auto                          c = Candidates<T>::get();
        for (size_t i = 0; i < c.size(); ++i) {
            std::array<T, N> a;
            for (size_t k = 0; k < N; ++k) a[k] = c[(i + k) % c.size()];
            r.push_back(a);
        }
        return r;
    }
};
template<typename T, uint32_t N>
struct Candidates<MultiArray<T, N>> {
    static std::vector<MultiArray<T, N>> get() {
        std::vector<MultiArray<T, N>> r;
        auto                          c = Candidates<T>::get();
        std::array<uint32_t, N>       d{};
        while (true) {
            MultiArray<T, N> m(d);
            for (size_t i = 0; i < m.elements().size(); ++i) m.elements()[i] = c[i % c.size()];
            r.push_back(m);
            size_t k = 0;
            while (k < N && ++d[k] > 3) d[k++] = 0;
            if (k == N) return r;
        }
    }
};
template<typename T>
struct Candidates<std::set<T>> {
    static std::vector<std::set<T>> get() {
        std::vector<std::set<T>> r{ {} };
        auto                     c = Candidates<T>::get();
        for (size_t i = 0; i < c.size(); ++i) {
            r.push_back({ T(c[i]) });
            r.push_back({ T(c[i]), T(c[(i + 1) % c.size()]), T(c[(i + 3) % c.size()]) });
        }
        return r;
    }
};
inline std::vector<std::string> keyCandidates = { "key", "a\"b\\/\n\x01", "b c", "0" };
template<typename M>
    requires requires { typename M::mapped_type; }
struct Candidates<M> {
    static std::vector<M> get() {
        using K = M::key_type;
        using V = M::mapped_type;
        std::vector<M> r{ M{} };
        std::vector<K> ks;
        if constexpr (std::is_same_v<K, std::string>) ks = keyCandidates;
        else ks = { K(0), K(7), K(-1), K(3) };
        auto c = Candidates<V>::get();
        for (size_t i = 0; i < c.size(); ++i) {
            r.push_back(M{ { ks[i % ks.size()], V(c[i]) } });
            M m;
            for (size_t k = 0; k < ks.size(); ++k) m[ks[k]] = V(c[(i + k) % c.size()]);
            r.push_back(std::move(m));
        }
        return r;
    }
};
template<typename T>
    requires is_annotated<T>
struct Candidates<T> { static auto get() { return Candidates<std::remove_cvref_t<decltype(std::declval<T>().value())>>::get(); } };
// choose a value for a member
template<typename M>
void chooseValue(M &m) {
    if constexpr (is_ptr<M>::value) {
        if (seq::choose(4) == 0) { m.reset(); return; }
        using E = M::element_type;
        m.reset(new E());
        chooseValue(*m);
    } else if constexpr (is_annotated<M>) {
        static const auto c = Candidates<M>::get();
        m                   = std::remove_cvref_t<decltype(m.value())>(c[static_cast<size_t>(seq::choose(static_cast<int>(c.size())))]);
    } else if constexpr (isReflectableClass<M>()) {
        const int which = seq::choose(static_cast<int>(refl::reflect<M>().members.size));
        for_each(refl::reflect<M>().members, [&](const auto member, auto index) { if (static_cast<int>(index) == which) chooseValue(member(m)); });
    } else {
        static const auto c = Candidates<M>::get();
        m                   = M(c[static_cast<size_t>(seq::choose(static_cast<int>(c.size())))]);
    }
}
// a member value that differs from the default, to check that reading replaces rather than merges
template<typename M>
void dirty(M &m) {
    if constexpr (is_ptr<M>::value) {
        m.reset(new typename M::element_type());
        dirty(*m);
    } else if constexpr (is_annotated<M>) {
        auto c = Candidates<M>::get();
        m      = std::remove_cvref_t<decltype(m.value())>(c.back());
    } else if constexpr (isReflectableClass<M>()) {
        for_each(refl::reflect<M>().members, [&](const auto member, auto) { dirty(member(m)); });
    } else {
        auto c = Candidates<M>::get();
        m      = M(c.back());
    }
}
// all combinations of candidate values of every pair of members; everything else at its default
template<typename S>
S choosePair(bool single = false) {
    S         s;
    const int n = static_cast<int>(refl::reflect<S>().members.size);
    const int i = seq::choose(n);
    const int j = single ? i : seq::choose(n);
    for_each(refl::reflect<S>().members, [&](const auto member, auto index) { if (static_cast<int>(index) == i) chooseValue(member(s)); });
    if (j != i) for_each(refl::reflect<S>().members, [&](const auto member, auto index) { if (static_cast<int>(index) == j) chooseValue(member(s)); });
    return s;
}
template<typename S>
bool anyPointerUnset(const S &s) {
    bool r = false;
    for_each(refl::reflect<S>().members, [&](const auto member, auto) { using M = std::remove_cvref_t<decltype(member(s))>; if constexpr (is_ptr<M>::value) r = r || !member(s); else if constexpr (isReflectableClass<M>()) r = r || anyPointerUnset(member(s)); });
    return r;
}
// serialise, check the bytes, read back into a fresh and into a dirty object, under every protocol check level
template<typename P, typename S, typename Wire>
void roundTrip(const S &s, Wire &&checkWire) {
    IoBuffer w(seq::choose(2) ? size_t(0) : size_t(4096));
    serialise<P>(w, s);
    seq::transition();
    checkWire(std::string_view(reinterpret_cast<const char *>(w.data()), w.size()), s);
    auto read = [&]<ProtocolCheck C>(S &into, const char *how) {
        IoBuffer r(reinterpret_cast<const char *>(w.data()), w.size()); // exactly sized: reads behind the content are visible to ASan
        DeserialiserInfo info;
        try {
            info = deserialise<P, C>(r, into);
        } catch (...) {
            seq::fail(std::string(how) + ": reading what was just written throws: " + what() + "\nwire: " + seq::quote(std::string_view(reinterpret_cast<const char *>(w.data()), std::min<size_t>(w.size(), 1500))));
        }
        SEQ_CHECK(info.exceptions.empty(), std::string(how) + ": reading what was just written reports: " + info.exceptions.front().what() + "\nwire: " + seq::quote(std::string_view(reinterpret_cast<const char *>(w.data()), std::min<size_t>(w.size(), 1500))));
        SEQ_CHECK(info.additionalFields.empty(), std::string(how) + ": reading what was just written reports additional fields");
        if (!same(s, into)) seq::fail(std::string(how) + ": field '" + firstDifference(s, into) + "' differs after reading back; wire: " + seq::quote(std::string_view(reinterpret_cast<const char *>(w.data()), std::min<size_t>(w.size(), 1500))));
        seq::transition();
    };
    { S fresh; read.template operator()<ProtocolCheck::ALWAYS>(fresh, "fresh object"); }
    if (!anyPointerUnset(s)) { S d; dirty(d); read.template operator()<ProtocolCheck::LENIENT>(d, "re-used object"); }
    { S fresh; read.template operator()<ProtocolCheck::IGNORE>(fresh, "fresh object, unchecked"); }
}
template<typename P, typename S, typename Wire>
void pairs(Wire &&w) { roundTrip<P, S>(choosePair<S>(), std::forward<Wire>(w)); }
// one or all fields of sizes around the limits of narrow length fields
template<typename P, typename Wire>
void sizes(Wire &&w, bool binary, bool longTexts = true) {
    static const std::vector<int> ns{ 0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 32766, 32767, 32768, 65534, 65535, 65536, 65537, 70000 };
    const auto n     = static_cast<size_t>(seq::chooseFrom(ns));
    const int  which = seq::choose(6);
    Big        b;
    b.before = 1;
    b.after  = 2;
    if (!binary && n > 4097 && !seq::thorough() && (n != 65537 || which > 1)) return; // text formats are slow
    auto on = [&](int k) { return which == k || which == 5; };
    if (on(0) && longTexts) for (size_t i = 0; i < n; ++i) b.text += static_cast<char>('a' + i % 26);
    if (on(1)) for (size_t i = 0; i < n; ++i) b.bytes.push_back(static_cast<int8_t>(i % 100 + 1));
    if (on(2)) for (size_t i = 0; i < n; ++i) b.numbers.push_back(static_cast<double>(i) / 4);
    if (on(3)) for (size_t i = 0; i < n; ++i) b.texts.push_back(i % 3 ? "t" : "text");
    if (on(4)) for (size_t i = 0; i < n; ++i) b.leaf.v.push_back(static_cast<double>(i));
    b.leaf.n = 3;
    roundTrip<P, Big>(b, std::forward<Wire>(w));
}
} // namespace ser
