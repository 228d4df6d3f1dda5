#pragma once
// reader for the subset of YAML the serialiser writes (block mappings, flow and block sequences, flow and block maps, comments)
#include "ser_common.hpp"
#include <IoSerialiserYAML.hpp>
namespace {
struct Lines {
    std::vector<std::pair<size_t, std::string>> l; // indentation, content without comment and trailing blanks
    size_t                                      p = 0;
    std::string                                 all;
    explicit Lines(std::string_view s) : all(s) {
        size_t i = 0;
        while (i < s.size()) {
            size_t e = s.find('\n', i);
            SEQ_CHECK(e != std::string_view::npos, "YAML text does not end with a line break: " + seq::quote(s));
            std::string x(s.substr(i, e - i));
            i            = e + 1;
            bool   quote = false;
            size_t cut   = x.size();
            for (size_t k = 0; k < x.size(); ++k) {
                if (x[k] == '"') quote = !quote;
                if (x[k] == '#' && !quote && (k == 0 || x[k - 1] == ' ')) { cut = k; break; }
            }
            x.resize(cut);
            while (!x.empty() && (x.back() == ' ' || x.back() == '\t')) x.pop_back();
            const size_t ind = std::min(x.find_first_not_of(' '), x.size());
            if (ind < x.size()) l.emplace_back(ind, x.substr(ind));
        }
    }
    [[noreturn]] void bad(const std::string &why) const { seq::fail("YAML text is not the expected one: " + why + "\ntext: " + seq::quote(std::string_view(all).substr(0, 1500))); }
    const std::pair<size_t, std::string> &next() { if (p >= l.size()) bad("ends early"); return l[p++]; }
};
std::vector<std::string> flow(const std::string &s) { // elements of [..] or {..}
    std::vector<std::string> r;
    std::string              in = s.substr(1, s.size() - 2);
    size_t                   i  = 0;
    if (in.empty()) return r;
    while (true) {
        size_t e = in.find(", ", i);
        r.push_back(in.substr(i, e == std::string::npos ? e : e - i));
        if (e == std::string::npos) return r;
        i = e + 2;
    }
}
template<typename T>
void scalarIs(const Lines &l, const std::string &got, const T &v) {
    bool ok;
    if constexpr (std::is_same_v<T, bool>) ok = got == (v ? "true" : "false");
    else if constexpr (std::is_integral_v<T>) ok = got == std::to_string(v);
    else if constexpr (std::is_same_v<T, float>) ok = !got.empty() && ser::same(strtof(got.c_str(), nullptr), v);
    else if constexpr (std::is_same_v<T, double>) ok = !got.empty() && ser::same(strtod(got.c_str(), nullptr), v);
    else ok = got == "\"" + v + "\"";
    if (!ok) l.bad("value '" + got + "'");
}
template<typename T>
void fieldIs(Lines &l, size_t indent, const std::string &name, const T &v) {
    if constexpr (is_annotated<T>) fieldIs(l, indent, name, v.value());
    else if constexpr (ser::is_ptr<T>::value) { if (v) fieldIs(l, indent, name, *v); }
    else if constexpr (isReflectableClass<T>()) {
        auto [i, line] = l.next();
        if (i != indent || line != name + ":") l.bad("line '" + line + "' instead of the start of " + name);
        for_each(refl::reflect<T>().members, [&](const auto member, auto) { fieldIs(l, indent + 2, ser::fieldName(std::string_view(member.name)), member(v)); });
    } else {
        auto [i, line] = l.next();
        if (i != indent || !line.starts_with(name + ":")) l.bad("line '" + line + "' instead of field " + name);
        std::string val = line.size() > name.size() + 2 ? line.substr(name.size() + 2) : "";
        if constexpr (requires { typename T::mapped_type; }) {
            std::vector<std::string> e;
            if (!val.empty()) { if (val.front() != '{' || val.back() != '}') l.bad("map"); e = flow(val); }
            else while (l.p < l.l.size() && l.l[l.p].first > indent) e.push_back(l.next().second);
            if (e.size() != v.size()) l.bad("number of map entries of " + name);
            size_t k = 0;
            for (auto &[key, x] : v) {
                if (!e[k].starts_with(key + ": ")) l.bad("map key '" + key + "'");
                scalarIs(l, e[k].substr(key.size() + 2), x);
                ++k;
            }
        } else if constexpr (requires { v.size(); v.begin(); } && !std::is_same_v<T, std::string>) {
            std::vector<std::string> e;
            if (!val.empty()) { if (val.front() != '[' || val.back() != ']') l.bad("sequence"); e = flow(val); }
            else
                while (l.p < l.l.size() && l.l[l.p].first > indent) {
                    auto x = l.next().second;
                    if (!x.starts_with("- ")) l.bad("sequence element '" + x + "'");
                    e.push_back(x.substr(2));
                }
            if (e.size() != v.size()) l.bad("number of elements of " + name);
            size_t k = 0;
            for (const auto &x : v) scalarIs(l, e[k++], static_cast<typename T::value_type>(x));
        } else {
            if (val.empty()) {
                auto [j, x] = l.next();
                if (j <= indent) l.bad("missing value of " + name);
                val = x;
            }
            scalarIs(l, val, v);
        }
    }
}
[[maybe_unused]] const auto wire = []<typename S>(std::string_view bytes, const S &s) {
    Lines l(bytes);
    if (l.next().second != "---") l.bad("no document start");
    fieldIs(l, 0, std::string(std::string_view(refl::reflect<S>().name)), s);
    if (l.next().second != "..." || l.p != l.l.size()) l.bad("no document end");
};
[[maybe_unused]] const int texts = [] {
    ser::textCandidates = { "", "x", "hello world", "t\xc3\xa4\xe2\x82\xac", "a:b", "don't - {do} [it]", "42", "true", "~!@$%^&*()_+=|<>?/\\;", std::string(40, 'L') };
    ser::keyCandidates  = { "key", "a", "b.c", "longer_key_0" };
    return 0;
}();
} // namespace
