// Minimal stand-in for refl-cpp (not available offline): the subset of its API opencmw uses, nothing else.
#ifndef VERIF_SHIM_REFL_HPP
#define VERIF_SHIM_REFL_HPP
#include <algorithm>
#include <array>
#include <cmath>
#include <cstddef>
#include <cstring>
#include <exception>
#include <iostream>
#include <memory>
#include <optional>
#include <ostream>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>

namespace refl {
namespace util {
template<std::size_t N>
struct const_string {
    using value_type                  = char;
    static constexpr std::size_t size = N;
    char                         data[N + 1]{};
    constexpr const char        *c_str() const noexcept { return data; }
    constexpr const char        *begin() const noexcept { return data; }
    constexpr const char        *end() const noexcept { return data + N; }
    constexpr                    operator std::string_view() const noexcept { return { data, N }; }
    std::string                  str() const { return { data, N }; }
    template<std::size_t Pos, std::size_t Count>
    constexpr auto substr() const noexcept {
        constexpr std::size_t L = Pos >= N ? 0 : (Count < N - Pos ? Count : N - Pos);
        const_string<L>       r;
        for (std::size_t i = 0; i < L; ++i) r.data[i] = data[Pos + i];
        return r;
    }
};
template<std::size_t N>
constexpr const_string<N - 1> make_const_string(const char (&s)[N]) noexcept {
    const_string<N - 1> r;
    for (std::size_t i = 0; i + 1 < N; ++i) r.data[i] = s[i];
    return r;
}
template<std::size_t N, std::size_t M>
constexpr bool operator==(const const_string<N> &a, const const_string<M> &b) noexcept { return std::string_view(a) == std::string_view(b); }
template<std::size_t N, std::size_t M>
constexpr bool operator==(const const_string<N> &a, const char (&b)[M]) noexcept { return std::string_view(a) == std::string_view(b, M - 1); }
template<std::size_t N>
std::ostream &operator<<(std::ostream &os, const const_string<N> &s) { return os << std::string_view(s); }

template<typename... Ts>
struct type_list {
    static constexpr std::size_t size = sizeof...(Ts);
};
namespace detail_ {
template<typename F, typename M>
constexpr void call(F &f, M m, std::size_t i) {
    if constexpr (std::is_invocable_v<F &, M, std::size_t>) f(m, i);
    else f(m);
}
template<typename R, typename F, typename M>
constexpr R callr(F &f, M m, std::size_t i) {
    if constexpr (std::is_invocable_v<F &, M, std::size_t>) return f(m, i);
    else return f(m);
}
} // namespace detail_
template<typename F, typename... Ts>
constexpr void for_each(type_list<Ts...>, F &&f) {
    [[maybe_unused]] std::size_t i = 0;
    (detail_::call(f, Ts{}, i++), ...);
}
template<typename T, typename F, typename... Ts>
constexpr auto map_to_array(type_list<Ts...>, F &&f) {
    return [&]<std::size_t... I>(std::index_sequence<I...>) { return std::array<T, sizeof...(Ts)>{ detail_::callr<T>(f, Ts{}, I)... }; }(std::index_sequence_for<Ts...>{});
}
template<typename F, typename... Ts>
constexpr bool contains(type_list<Ts...>, F &&f) { return (false || ... || f(Ts{})); }
namespace detail_ {
template<std::size_t I, typename T, typename... Ts>
struct nth { using type = typename nth<I - 1, Ts...>::type; };
template<typename T, typename... Ts>
struct nth<0, T, Ts...> { using type = T; };
} // namespace detail_
// opencmw only asks for the first member whose *type* satisfies a stateless predicate
template<typename F, typename T, typename... Ts>
constexpr auto find_first(type_list<T, Ts...>, F f) {
    if constexpr (f(T{})) return T{};
    else return find_first(type_list<Ts...>{}, f);
}
} // namespace util
using util::const_string;
using util::make_const_string;
using util::type_list;
} // namespace refl

namespace refl_impl::metadata {
template<typename T>
struct type_info__ {
    struct invalid_marker {};
};
} // namespace refl_impl::metadata

namespace refl {
namespace detail_ {
template<typename T>
using ti = ::refl_impl::metadata::type_info__<std::remove_cvref_t<T>>;
template<typename T>
concept Known = !requires { typename ti<T>::invalid_marker; };
} // namespace detail_

namespace trait {
template<typename T>
struct is_reflectable : std::bool_constant<detail_::Known<T>> {};
template<typename T>
inline constexpr bool is_reflectable_v = is_reflectable<T>::value;
} // namespace trait
template<typename T>
constexpr bool is_reflectable() noexcept { return detail_::Known<T>; }
template<typename T>
constexpr bool is_reflectable(const T &) noexcept { return detail_::Known<T>; }

namespace descriptor {
template<typename T>
struct type_descriptor;
template<typename T, std::size_t N>
struct field_descriptor {
    using info                    = typename detail_::ti<T>::template member<N>;
    using declaring_type          = T;
    static constexpr auto name    = info::name();
    static constexpr auto pointer = info::pointer();
    using value_type              = std::remove_reference_t<decltype(std::declval<T &>().*info::pointer())>;
    static constexpr type_descriptor<T> declarator{};
    template<typename U>
    constexpr auto &operator()(U &&u) const noexcept { return u.*(info::pointer()); }
};
template<typename T, std::size_t... I>
constexpr auto members_(std::index_sequence<I...>) { return util::type_list<field_descriptor<T, I>...>{}; }
template<typename T>
struct type_descriptor {
    using type                    = T;
    static constexpr auto name    = detail_::ti<T>::name();
    static constexpr decltype(members_<T>(std::make_index_sequence<detail_::ti<T>::count>{})) members{};
};
template<typename T>
constexpr auto get_members(type_descriptor<T>) { return type_descriptor<T>::members; }
template<typename T>
constexpr auto get_name(type_descriptor<T>) { return type_descriptor<T>::name; }
template<typename T, std::size_t N>
constexpr auto get_name(field_descriptor<T, N>) { return field_descriptor<T, N>::name; }
template<typename T, std::size_t N>
constexpr const char *get_display_name(field_descriptor<T, N>) { return field_descriptor<T, N>::name.data; }
template<typename T, std::size_t N>
std::string get_debug_name(field_descriptor<T, N>) { return type_descriptor<T>::name.str() + "::" + field_descriptor<T, N>::name.str(); }
template<typename T, std::size_t N>
constexpr bool is_field(field_descriptor<T, N>) { return true; }
template<typename T, std::size_t N>
constexpr bool is_static(field_descriptor<T, N>) { return false; }
template<typename T, std::size_t N>
constexpr bool is_writable(field_descriptor<T, N>) { return !std::is_const_v<typename field_descriptor<T, N>::value_type>; }
} // namespace descriptor

template<typename T>
constexpr auto reflect() noexcept { return descriptor::type_descriptor<std::remove_cvref_t<T>>{}; }
template<typename T>
constexpr auto reflect(const T &) noexcept { return descriptor::type_descriptor<T>{}; }
} // namespace refl
// ADL for free functions on members lists happens in refl::util; on descriptors in refl::descriptor

#define REFL_DETAIL_STR_IMPL(...) #__VA_ARGS__
#define REFL_DETAIL_STR(...) REFL_DETAIL_STR_IMPL(__VA_ARGS__)
#define REFL_DETAIL_FIRST(x, ...) x
#define REFL_TYPE(TypeName, ...) \
    namespace refl_impl::metadata { \
    template<> \
    struct type_info__<TypeName> { \
        using type = TypeName; \
        static constexpr auto name() { return ::refl::util::make_const_string(REFL_DETAIL_STR(TypeName)); } \
        template<std::size_t, typename = void> \
        struct member {}; \
        static constexpr std::size_t base__ = __COUNTER__ + 1;

#define REFL_DETAIL_EX_1_field(X) REFL_DETAIL_FIELD_N(X, __COUNTER__)
#define REFL_DETAIL_FIELD_N(X, C) REFL_DETAIL_FIELD_M(X, C)
#define REFL_DETAIL_FIELD_M(X, C) \
        template<typename D__> \
        struct member<C - base__, D__> { \
            static constexpr auto name() { return ::refl::util::make_const_string(#X); } \
            static constexpr auto pointer() { return &type::X; } \
        };
#define REFL_FIELD(X, ...) REFL_DETAIL_EX_1_field(X)
#define REFL_END \
        static constexpr std::size_t count = __COUNTER__ - base__; \
    }; \
    }

#define REFL_DETAIL_PARENS ()
#define REFL_DETAIL_EXPAND(...) REFL_DETAIL_EXPAND3(REFL_DETAIL_EXPAND3(REFL_DETAIL_EXPAND3(__VA_ARGS__)))
#define REFL_DETAIL_EXPAND3(...) REFL_DETAIL_EXPAND2(REFL_DETAIL_EXPAND2(REFL_DETAIL_EXPAND2(__VA_ARGS__)))
#define REFL_DETAIL_EXPAND2(...) REFL_DETAIL_EXPAND1(REFL_DETAIL_EXPAND1(REFL_DETAIL_EXPAND1(__VA_ARGS__)))
#define REFL_DETAIL_EXPAND1(...) __VA_ARGS__
#define REFL_DETAIL_FOR_EACH(macro, ...) __VA_OPT__(REFL_DETAIL_EXPAND(REFL_DETAIL_FEH(macro, __VA_ARGS__)))
#define REFL_DETAIL_FEH(macro, a1, ...) macro(a1) __VA_OPT__(REFL_DETAIL_FEA REFL_DETAIL_PARENS(macro, __VA_ARGS__))
#define REFL_DETAIL_FEA() REFL_DETAIL_FEH

// refl-cpp knows a few std types; opencmw filters them out by their "std::" prefix
namespace refl_impl::metadata {
template<>
struct type_info__<std::string> {
    using type = std::string;
    static constexpr auto        name() { return ::refl::util::make_const_string("std::basic_string<char>"); }
    static constexpr std::size_t count = 0;
    template<std::size_t>
    struct member {};
};
template<>
struct type_info__<std::string_view> {
    using type = std::string_view;
    static constexpr auto        name() { return ::refl::util::make_const_string("std::basic_string_view<char>"); }
    static constexpr std::size_t count = 0;
    template<std::size_t>
    struct member {};
};
template<>
struct type_info__<std::exception> {
    using type = std::exception;
    static constexpr auto        name() { return ::refl::util::make_const_string("std::exception"); }
    static constexpr std::size_t count = 0;
    template<std::size_t>
    struct member {};
};
} // namespace refl_impl::metadata
#endif
