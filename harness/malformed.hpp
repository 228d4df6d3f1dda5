#pragma once
// C47: malformed serialised data: every truncation, byte change, 32-bit field change, removed and inserted byte of valid messages
#include "ser_common.hpp"
#include <unordered_map>
#include <variant>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, std::size_t), void (*)(const volatile void *));
namespace malformed {
inline std::size_t biggest = 0;
inline void        onAlloc(const volatile void *, std::size_t n) { biggest = std::max(biggest, n); }
inline void        onFree(const volatile void *) {}
inline const int   hooked = __sanitizer_install_malloc_and_free_hooks(onAlloc, onFree);

template<typename T>
void fill(T &v, int k) { // k: 0 some small content, 1 as little as possible
    if constexpr (std::is_same_v<T, bool>) v = k == 0;
    else if constexpr (std::is_arithmetic_v<T>) v = T(k == 0 ? 3 : -1);
    else if constexpr (std::is_same_v<T, std::string>) v = k == 0 ? "a\"b" : "";
    else if constexpr (is_annotated<T>) {
        std::remove_cvref_t<decltype(v.value())> x{};
        fill(x, k);
        v = x;
    } else if constexpr (ser::is_ptr<T>::value) {
        if (k == 0) v.reset(new typename T::element_type()), fill(*v, k);
    } else if constexpr (isReflectableClass<T>()) for_each(refl::reflect<T>().members, [&](const auto member, auto) { fill(member(v), k); });
    else if constexpr (MultiArrayType<T>) {
        std::array<uint32_t, T::n_dims_> d;
        d.fill(2);
        if (k) d.fill(1);
        d[0] = 1;
        v    = T(d);
    } else if constexpr (requires { typename T::mapped_type; }) {
        typename T::mapped_type x{};
        fill(x, k);
        typename T::key_type key{};
        fill(key, 0);
        if (k == 0) v[key] = x;
        fill(key, 1);
        v[key] = x;
    } else if constexpr (requires { typename T::key_type; }) {
        typename T::key_type key{};
        fill(key, 0);
        v.insert(key);
        fill(key, 1);
        if (k == 0) v.insert(key);
    } else if constexpr (std::is_same_v<T, std::vector<bool>>) v = k == 0 ? T{ true, false } : T{};
    else if constexpr (requires { v.resize(2); }) {
        v.resize(k == 0 ? 2 : 0);
        for (auto &e : v) fill(e, 0);
    } else if constexpr (requires { v.index(); }) v = k == 0 ? T(std::in_place_index<2>, "ab") : T();
    else for (auto &e : v) fill(e, k);
}
template<typename T>
void wellFormed(const T &v, const std::string &what) { // what was read can be used
    if constexpr (is_annotated<T>) wellFormed(v.value(), what);
    else if constexpr (ser::is_ptr<T>::value) { if (v) wellFormed(*v, what); }
    else if constexpr (isReflectableClass<T>()) for_each(refl::reflect<T>().members, [&](const auto member, auto) { wellFormed(member(v), what + "." + std::string(std::string_view(member.name))); });
    else if constexpr (MultiArrayType<T>) {
        std::size_t n = 1;
        for (auto d : v.dimensions()) n *= d;
        SEQ_CHECK(n == v.elements().size() && v.element_count() == n, what + ": the dimensions of the array read ask for " + std::to_string(n) + " elements, it has " + std::to_string(v.elements().size()));
    }
}
template<typename P, typename S>
void run(bool isText) {
    const int k = seq::choose(2);
    S         s;
    fill(s, k);
    IoBuffer w;
    serialise<P>(w, s);
    std::string body(reinterpret_cast<const char *>(w.data()), w.size()), what;
    const int   kind = seq::choose(5);
    if (kind == 2 && isText) return;
    const std::size_t n = static_cast<std::size_t>(seq::choose(static_cast<int>(body.size())));
    auto              at = [&] { return " at " + std::to_string(n) + " of " + seq::quote(body); };
    std::vector<int>  values;
    if (isText) for (char c : seq::thorough() ? std::string("\"\\{}[],:-+.eE07 tfnu#'\n\0\x80", 25) : std::string("\"\\{}[],:-0 n\n\0", 14)) values.push_back(static_cast<unsigned char>(c));
    else {
        for (int b = 0; b < 8; ++b) values.push_back((body[n] ^ (1 << b)) & 255);
        for (int x : { 0, 1, 0x7f, 0x80, 0xfd, 0xfe, 0xff, 200, 203, 8 }) values.push_back(x);
        for (int x = 0; seq::thorough() && x < 256; ++x) values.push_back(x);
    }
    std::string m = body;
    switch (kind) {
    case 0: m.resize(n); what = "cut" + at(); break;
    case 1: {
        const int v = seq::chooseFrom(values);
        if (static_cast<char>(v) == body[n]) return;
        m[n] = static_cast<char>(v);
        what = "byte set to " + std::to_string(v) + at();
        break;
    }
    case 2: {
        if (n + 4 > body.size()) return;
        int32_t old;
        std::memcpy(&old, &body[n], 4);
        const int32_t v = seq::chooseFrom(std::vector<int32_t>{ -1, INT32_MIN, INT32_MAX, 0, 1, 2, 0x10000, 0x3fffffff, 0x40000001, INT32_MIN + 1, static_cast<int32_t>(static_cast<uint32_t>(old) + 1u), static_cast<int32_t>(static_cast<uint32_t>(old) - 1u), -1 - old });
        std::memcpy(&m[n], &v, 4);
        what = "32-bit value set to " + std::to_string(v) + at();
        break;
    }
    case 3: m.erase(n, 1); what = "byte removed" + at(); break;
    default: {
        const int v = seq::chooseFrom(isText ? values : std::vector<int>{ 0, 1, 255 });
        m.insert(n, 1, static_cast<char>(v));
        what = "byte " + std::to_string(v) + " inserted" + at();
    }
    }
    auto read = [&]<ProtocolCheck C>(S &into) {
        IoBuffer r(m.data(), m.size()); // exactly sized: ASan sees every access outside
        biggest = 0;
        try {
            (void) deserialise<P, C>(r, into);
        } catch (...) {} // rejected: fine
        SEQ_CHECK(biggest < (1u << 20), what + ": reading asks for " + std::to_string(biggest) + " bytes of memory at once");
        wellFormed(into, what);
        IoBuffer again;
        serialise<P>(again, into); // usable
        seq::transition();
    };
    S into;
    switch (seq::choose(3)) {
    case 0: read.template operator()<ProtocolCheck::ALWAYS>(into); break;
    case 1: read.template operator()<ProtocolCheck::LENIENT>(into); break;
    default: read.template operator()<ProtocolCheck::IGNORE>(into); break;
    }
    seq::state(seq::hash(m));
}
} // namespace malformed
