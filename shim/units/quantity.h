// Minimal stand-in for mp-units v0 (not available offline): the subset of its API opencmw uses.
#ifndef VERIF_SHIM_UNITS_QUANTITY_H
#define VERIF_SHIM_UNITS_QUANTITY_H
#include <compare>
#include <concepts>
#include <cstddef>
#include <string_view>
#include <type_traits>
#include <utility>

namespace units {
template<typename CharT, std::size_t N>
struct basic_fixed_string {
    CharT data_[N + 1]{};
    constexpr basic_fixed_string() noexcept = default;
    constexpr basic_fixed_string(const CharT (&s)[N + 1]) noexcept {
        for (std::size_t i = 0; i < N; ++i) data_[i] = s[i];
    }
    constexpr std::size_t  size() const noexcept { return N; }
    constexpr bool         empty() const noexcept { return N == 0; }
    constexpr const CharT *data() const noexcept { return data_; }
    constexpr const CharT *c_str() const noexcept { return data_; }
    constexpr CharT        operator[](std::size_t i) const noexcept { return data_[i]; }
    constexpr              operator std::basic_string_view<CharT>() const noexcept { return { data_, N }; }
    template<std::size_t M>
    friend constexpr bool operator==(const basic_fixed_string &a, const basic_fixed_string<CharT, M> &b) {
        return std::basic_string_view<CharT>(a.data_, N) == std::basic_string_view<CharT>(b.data_, M);
    }
};
template<typename CharT, std::size_t N>
basic_fixed_string(const CharT (&)[N]) -> basic_fixed_string<CharT, N - 1>;
template<std::size_t N>
using fixed_string = basic_fixed_string<char, N>;

template<typename A, typename B>
inline constexpr bool is_same_v = std::is_same_v<A, B>;

template<typename T, template<typename...> typename Type>
inline constexpr bool is_specialization_of = false;
template<typename... Params, template<typename...> typename Type>
inline constexpr bool is_specialization_of<Type<Params...>, Type> = true;
namespace detail {
template<typename T, template<typename...> typename Type>
concept derived_spec_ = requires(T *t) { []<typename... P>(const Type<P...> *) {}(t); };
}
template<typename T, template<typename...> typename Type>
inline constexpr bool is_derived_from_specialization_of = detail::derived_spec_<T, Type>;

template<typename D, typename U, typename Rep = double>
struct quantity;
namespace detail {
template<typename D, typename U, typename R>
void to_q(const quantity<D, U, R> *);
}
template<typename T>
concept Quantity = requires(std::remove_cvref_t<T> *t) { detail::to_q(t); };
template<typename T>
concept QuantityLike = false;
template<typename T>
concept wrapped_quantity_ = false;
template<typename T>
concept scalable_ = std::is_arithmetic_v<T>;
template<typename T>
concept Representation = (!Quantity<T>) && (!QuantityLike<T>) && (!wrapped_quantity_<T>) && std::regular<T> && scalable_<T>;

template<typename D, typename U, typename Rep>
struct quantity {
    using dimension = D;
    using unit      = U;
    using rep       = Rep;
    Rep number_{};
    constexpr quantity() = default;
    template<typename V>
        requires std::is_arithmetic_v<V>
    constexpr explicit quantity(const V &v) : number_(static_cast<Rep>(v)) {}
    constexpr Rep       &number() & noexcept { return number_; }
    constexpr const Rep &number() const & noexcept { return number_; }
    constexpr Rep      &&number() && noexcept { return std::move(number_); }
    constexpr auto       operator<=>(const quantity &) const noexcept = default;
    constexpr bool       operator==(const quantity &) const noexcept  = default;
};

struct one { static constexpr basic_fixed_string symbol = "1"; };
struct dim_one {};
template<typename U = one, typename Rep = double>
using dimensionless = quantity<dim_one, U, Rep>;

namespace detail {
template<typename D, typename U>
struct text_ {
    // mp-units prints nothing for the dimensionless unit one
    constexpr auto ascii() const {
        if constexpr (std::is_same_v<U, one>) return basic_fixed_string("");
        else return U::symbol;
    }
};
template<typename D, typename U>
constexpr auto unit_text() { return text_<D, U>{}; }
} // namespace detail

namespace isq {
struct dim_time {};
struct dim_length {};
struct dim_mass {};
struct dim_voltage {};
struct dim_speed {};
struct dim_electric_current {};
struct dim_energy {};
struct dim_resistance {};
namespace detail_ {
template<typename D, typename U, typename R>
D dim_of(const quantity<D, U, R> *);
}
template<typename T>
concept Time = Quantity<T> && std::is_same_v<decltype(detail_::dim_of(static_cast<std::remove_cvref_t<T> *>(nullptr))), dim_time>;
namespace si {
struct second { static constexpr basic_fixed_string symbol = "s"; };
struct microsecond { static constexpr basic_fixed_string symbol = "us"; };
struct millisecond { static constexpr basic_fixed_string symbol = "ms"; };
struct metre { static constexpr basic_fixed_string symbol = "m"; };
struct kilometre { static constexpr basic_fixed_string symbol = "km"; };
struct ampere { static constexpr basic_fixed_string symbol = "A"; };
struct joule { static constexpr basic_fixed_string symbol = "J"; };
struct gigaelectronvolt { static constexpr basic_fixed_string symbol = "GeV"; };
struct ohm { static constexpr basic_fixed_string symbol = "Ohm"; };
struct millimetre { static constexpr basic_fixed_string symbol = "mm"; };
struct kilogram { static constexpr basic_fixed_string symbol = "kg"; };
struct volt { static constexpr basic_fixed_string symbol = "V"; };
struct metre_per_second { static constexpr basic_fixed_string symbol = "m/s"; };
template<typename U, typename Rep = double>
using time = quantity<dim_time, U, Rep>;
template<typename U, typename Rep = double>
using length = quantity<dim_length, U, Rep>;
template<typename U, typename Rep = double>
using mass = quantity<dim_mass, U, Rep>;
template<typename U, typename Rep = double>
using voltage = quantity<dim_voltage, U, Rep>;
template<typename U, typename Rep = double>
using speed = quantity<dim_speed, U, Rep>;
template<typename U, typename Rep = double>
using electric_current = quantity<dim_electric_current, U, Rep>;
template<typename U, typename Rep = double>
using energy = quantity<dim_energy, U, Rep>;
template<typename U, typename Rep = double>
using resistance = quantity<dim_resistance, U, Rep>;
} // namespace si
} // namespace isq
} // namespace units
#endif
