#pragma once
// CmwLight reference encoder, written from the format description
#include "ser_common.hpp"
#include <IoSerialiserCmwLight.hpp>
namespace {
template<typename T>
std::string raw(T v) { return { reinterpret_cast<const char *>(&v), sizeof v }; }
std::string text(std::string_view s) { return raw(int32_t(s.size() + 1)) + std::string(s) + std::string(1, '\0'); }
template<typename T>
constexpr int scalarId() {
    if constexpr (std::is_same_v<T, bool>) return 0;
    if constexpr (std::is_same_v<T, int8_t>) return 1;
    if constexpr (std::is_same_v<T, int16_t>) return 2;
    if constexpr (std::is_same_v<T, int32_t>) return 3;
    if constexpr (std::is_same_v<T, int64_t>) return 4;
    if constexpr (std::is_same_v<T, float>) return 5;
    if constexpr (std::is_same_v<T, double>) return 6;
    if constexpr (std::is_same_v<T, std::string>) return 7;
    return -1;
}
template<typename T>
std::string element(const T &v) {
    if constexpr (std::is_same_v<T, std::string>) return text(v);
    else return raw(T(v));
}
template<typename C>
std::string counted(const C &c) {
    std::string r = raw(int32_t(c.size()));
    for (const auto &v : c) r += element(typename C::value_type(v));
    return r;
}
// ids of arrays: 9.. one dimension, 17.. two, 25.. more
template<typename T>
constexpr int arrayId(int dims) { return (dims == 1 ? 9 : dims == 2 ? 17 : 25) + scalarId<T>(); }
struct Enc { int id; std::string data; };
template<typename T>
struct is_variant : std::false_type {};
template<typename... T>
struct is_variant<std::variant<T...>> : std::true_type {};
template<typename T>
Enc encode(const T &v) {
    if constexpr (is_annotated<T>) return encode(v.value());
    else if constexpr (is_variant<T>::value) return std::visit([](const auto &x) { return encode(x); }, v);
    else if constexpr (scalarId<T>() >= 0) return { scalarId<T>(), element(v) };
    else if constexpr (MultiArrayType<T>) {
        std::string r = raw(int32_t(T::n_dims_));
        for (auto d : v.dimensions()) r += raw(int32_t(d));
        return { arrayId<typename T::value_type>(T::n_dims_), r + counted(v.elements()) };
    } else if constexpr (requires { typename T::mapped_type; }) {
        std::string r = raw(int32_t(v.size()));
        for (auto &[k, x] : v) {
            auto e = encode(x);
            r += text(k) + raw(uint8_t(e.id)) + e.data;
        }
        return { 8, r };
    } else return { arrayId<typename T::value_type>(1), raw(int32_t(1)) + raw(int32_t(v.size())) + counted(v) };
}
template<typename S>
std::string encodeStruct(const S &s) {
    std::string body;
    int32_t     n = 0;
    for_each(refl::reflect<S>().members, [&](const auto member, auto) {
        using M             = std::remove_cvref_t<decltype(member(s))>;
        const auto &m       = member(s);
        const std::string name = ser::fieldName(std::string_view(member.name));
        if constexpr (ser::is_ptr<M>::value) {
            if (!m) return;
            if constexpr (isReflectableClass<typename M::element_type>()) body += text(name) + "\x08" + encodeStruct(*m);
            else { auto e = encode(*m); body += text(name) + raw(uint8_t(e.id)) + e.data; }
        } else if constexpr (isReflectableClass<M>()) body += text(name) + "\x08" + encodeStruct(m);
        else { auto e = encode(m); body += text(name) + raw(uint8_t(e.id)) + e.data; }
        ++n;
    });
    return raw(n) + body;
}
[[maybe_unused]] const auto wire = []<typename S>(std::string_view bytes, const S &s) {
    const std::string expected = encodeStruct(s);
    if (bytes == expected) return;
    size_t i = 0;
    while (i < std::min(bytes.size(), expected.size()) && bytes[i] == expected[i]) ++i;
    seq::fail("CmwLight bytes differ from the format at byte " + std::to_string(i) + " (written " + std::to_string(bytes.size()) + " bytes, expected " + std::to_string(expected.size()) + ")\nwritten:  " + seq::quote(bytes.substr(0, 600)) + "\nexpected: " + seq::quote(expected.substr(0, 600)));
};
} // namespace
