#pragma once
// YaS reference encoder, written from the format description
#include "ser_common.hpp"
#include <IoSerialiserYaS.hpp>
namespace {
// ------------------------------------------------- reference encoder, written from the format description
template<typename T>
std::string raw(T v) { return { reinterpret_cast<const char *>(&v), sizeof v }; }
std::string text(std::string_view s) { return raw(int32_t(s.size() + 1)) + std::string(s) + std::string(1, '\0'); }
template<typename T>
constexpr int scalarId() {
    if constexpr (std::is_same_v<T, bool>) return 1;
    if constexpr (std::is_same_v<T, int8_t>) return 2;
    if constexpr (std::is_same_v<T, int16_t>) return 3;
    if constexpr (std::is_same_v<T, int32_t>) return 4;
    if constexpr (std::is_same_v<T, int64_t>) return 5;
    if constexpr (std::is_same_v<T, float>) return 6;
    if constexpr (std::is_same_v<T, double>) return 7;
    if constexpr (std::is_same_v<T, std::string>) return 9;
    return -1;
}
template<typename T>
std::string element(const T &v) {
    if constexpr (std::is_same_v<T, std::string>) return text(v);
    else return raw(T(v));
}
template<typename C>
std::string counted(const C &c) {
    std::string r = raw(int32_t(c.size()));
    for (const auto &v : c) r += element(typename C::value_type(v));
    return r;
}
template<typename T>
struct is_std_array : std::false_type {};
template<typename T, size_t N>
struct is_std_array<std::array<T, N>> : std::true_type {};
struct Enc { int id; std::string data; };
template<typename T>
Enc encode(const T &v) {
    if constexpr (is_annotated<T>) return encode(v.value());
    else if constexpr (ser::is_ptr<T>::value) return encode(*v);
    else if constexpr (scalarId<T>() > 0) return { scalarId<T>(), element(v) };
    else if constexpr (MultiArrayType<T>) {
        std::string r = raw(int32_t(T::n_dims_));
        for (auto d : v.dimensions()) r += raw(int32_t(d));
        return { 100 + scalarId<typename T::value_type>(), r + counted(v.elements()) };
    } else if constexpr (requires { typename T::mapped_type; }) {
        using K = T::key_type;
        using V = T::mapped_type;
        std::string r = raw(int32_t(v.size()));
        r += raw(uint8_t(scalarId<K>())) + raw(int32_t(v.size()));
        for (auto &e : v) r += element(e.first);
        if constexpr (scalarId<V>() > 0) {
            r += raw(uint8_t(scalarId<V>())) + raw(int32_t(v.size()));
            for (auto &e : v) r += element(e.second);
        } else {
            r += raw(uint8_t(0xFD)) + text(typeName<V>) + text("") + raw(int32_t(v.size()));
            for (auto &e : v) r += encode(e.second).data;
        }
        return { 203, r };
    } else { // vector, array, set: number of dimensions, dimension, elements
        return { is_std_array<T>::value ? 255 : 100 + scalarId<typename T::value_type>(), raw(int32_t(1)) + raw(int32_t(v.size())) + counted(v) };
    }
}
std::string header(int id, std::string_view name, const std::string &meta, size_t size) {
    const std::string n = text(name);
    return raw(uint8_t(id)) + raw(int32_t(1 + 4 + 4 + n.size() + meta.size())) + raw(int32_t(size)) + n + meta;
}
template<typename S>
std::string encodeStruct(std::string_view name, const S &s) {
    std::string body;
    for_each(refl::reflect<S>().members, [&](const auto member, auto) {
        using M             = std::remove_cvref_t<decltype(member(s))>;
        const auto &m       = member(s);
        const std::string n = ser::fieldName(std::string_view(member.name));
        if constexpr (ser::is_ptr<M>::value) {
            if (!m) return;
            if constexpr (isReflectableClass<typename M::element_type>()) body += encodeStruct(n, *m);
            else { auto e = encode(*m); body += header(e.id, n, "", e.data.size()) + e.data; }
        } else if constexpr (isReflectableClass<M>()) body += encodeStruct(n, m);
        else {
            auto        e = encode(m);
            std::string meta;
            if constexpr (is_annotated<M>) meta = text(m.getUnit()) + text(m.getQuantity()) + text(m.getDescription()) + raw(uint8_t(m.getModifier()));
            body += header(e.id, n, meta, e.data.size()) + e.data;
        }
    });
    body += header(0xFE, name, "", 0);
    return header(0, name, "", body.size()) + body;
}
const auto wire = []<typename S>(std::string_view bytes, const S &s) {
    const std::string expected = raw(int32_t(-1)) + text("YaS") + "\x01" + std::string(2, '\0') + encodeStruct(typeName<S>, s);
    if (bytes == expected) return;
    size_t i = 0;
    while (i < std::min(bytes.size(), expected.size()) && bytes[i] == expected[i]) ++i;
    seq::fail("YaS bytes differ from the format at byte " + std::to_string(i) + " (written " + std::to_string(bytes.size()) + " bytes, expected " + std::to_string(expected.size()) + ")\nwritten:  " + seq::quote(bytes.substr(0, 600)) + "\nexpected: " + seq::quote(expected.substr(0, 600)));
};
} // namespace
