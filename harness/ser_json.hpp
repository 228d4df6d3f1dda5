#pragma once
// JSON (RFC 8259) reference reader: an independent strict parser, and the value every object has to appear as
#include "ser_common.hpp"
#include <IoSerialiserJson.hpp>
namespace {
struct JV {
    enum Kind { Null, Bool, Num, Str, Arr, Obj } kind = Null;
    bool                                     b        = false;
    std::string                              text; // number as written or decoded text
    std::vector<JV>                          items;
    std::vector<std::pair<std::string, JV>>  fields;
};
struct Strict {
    std::string_view s;
    size_t           p = 0;
    [[noreturn]] void bad(const char *why) { seq::fail(std::string("written text is not JSON: ") + why + " at byte " + std::to_string(p) + " of " + seq::quote(s.substr(0, 1200))); }
    void ws() { while (p < s.size() && (s[p] == ' ' || s[p] == '\t' || s[p] == '\n' || s[p] == '\r')) ++p; }
    bool eat(char c) { if (p < s.size() && s[p] == c) { ++p; return true; } return false; }
    int  hex4() {
        int v = 0;
        for (int i = 0; i < 4; ++i, ++p) {
            if (p >= s.size() || !isxdigit(static_cast<unsigned char>(s[p]))) bad("\\u without four hex digits");
            v = v * 16 + (isdigit(static_cast<unsigned char>(s[p])) ? s[p] - '0' : (s[p] | 32) - 'a' + 10);
        }
        return v;
    }
    std::string str() {
        std::string r;
        if (!eat('"')) bad("text expected");
        while (true) {
            if (p >= s.size()) bad("unterminated text");
            const unsigned char c = static_cast<unsigned char>(s[p++]);
            if (c == '"') return r;
            if (c < 0x20) { --p; bad("control character inside text"); }
            if (c != '\\') { r += static_cast<char>(c); continue; }
            if (p >= s.size()) bad("unterminated escape");
            switch (s[p++]) {
            case '"': r += '"'; break;
            case '\\': r += '\\'; break;
            case '/': r += '/'; break;
            case 'b': r += '\b'; break;
            case 'f': r += '\f'; break;
            case 'n': r += '\n'; break;
            case 'r': r += '\r'; break;
            case 't': r += '\t'; break;
            case 'u': {
                const int v = hex4();
                if (v >= 0x80) bad("only control characters are expected in \\u notation");
                r += static_cast<char>(v);
                break;
            }
            default: bad("unknown escape");
            }
        }
    }
    JV value(int depth = 0) {
        JV r;
        ws();
        if (p >= s.size() || depth > 20) bad("value expected");
        if (eat('{')) {
            r.kind = JV::Obj;
            ws();
            if (eat('}')) return r;
            do {
                ws();
                std::string k = str();
                ws();
                if (!eat(':')) bad("colon expected");
                r.fields.emplace_back(std::move(k), value(depth + 1));
                ws();
            } while (eat(','));
            if (!eat('}')) bad("comma or } expected");
        } else if (eat('[')) {
            r.kind = JV::Arr;
            ws();
            if (eat(']')) return r;
            do { r.items.push_back(value(depth + 1)); ws(); } while (eat(','));
            if (!eat(']')) bad("comma or ] expected");
        } else if (s[p] == '"') {
            r.kind = JV::Str;
            r.text = str();
        } else if (s.substr(p, 4) == "true") { p += 4; r.kind = JV::Bool; r.b = true; }
        else if (s.substr(p, 5) == "false") { p += 5; r.kind = JV::Bool; }
        else if (s.substr(p, 4) == "null") { p += 4; }
        else {
            const size_t st = p;
            r.kind          = JV::Num;
            eat('-');
            if (!eat('0')) { if (p >= s.size() || !isdigit(static_cast<unsigned char>(s[p]))) bad("number expected"); digits(); }
            if (eat('.')) digits();
            if (p < s.size() && (s[p] == 'e' || s[p] == 'E')) { ++p; if (!eat('+')) eat('-'); digits(); }
            r.text = std::string(s.substr(st, p - st));
        }
        return r;
    }
    void digits() {
        if (p >= s.size() || !isdigit(static_cast<unsigned char>(s[p]))) bad("digit expected");
        while (p < s.size() && isdigit(static_cast<unsigned char>(s[p]))) ++p;
    }
    JV document() { JV r = value(); ws(); if (p != s.size()) bad("text behind the document"); return r; }
};
// does the JSON value represent the C++ value?
template<typename T>
void represents(const JV &j, const T &v, const std::string &at) {
    auto kind = [&](JV::Kind k, const char *n) { if (j.kind != k) seq::fail("JSON value of " + at + " is not " + n); };
    if constexpr (is_annotated<T>) represents(j, v.value(), at);
    else if constexpr (ser::is_ptr<T>::value) represents(j, *v, at);
    else if constexpr (std::is_same_v<T, bool>) { kind(JV::Bool, "a boolean"); SEQ_CHECK(j.b == v, "boolean " + at + " differs"); }
    else if constexpr (std::is_integral_v<T>) { kind(JV::Num, "a number"); SEQ_CHECK(j.text == std::to_string(v), "number " + at + " is written as " + j.text + " instead of " + std::to_string(v)); }
    else if constexpr (std::is_same_v<T, float>) { kind(JV::Num, "a number"); SEQ_CHECK(ser::same(strtof(j.text.c_str(), nullptr), v), "number " + at + " is written as " + j.text); }
    else if constexpr (std::is_same_v<T, double>) { kind(JV::Num, "a number"); SEQ_CHECK(ser::same(strtod(j.text.c_str(), nullptr), v), "number " + at + " is written as " + j.text); }
    else if constexpr (std::is_same_v<T, std::string>) { kind(JV::Str, "a text"); SEQ_CHECK(j.text == v, "text " + at + " is written as " + seq::quote(j.text) + " instead of " + seq::quote(v)); }
    else if constexpr (MultiArrayType<T>) {
        kind(JV::Obj, "an object");
        SEQ_CHECK(j.fields.size() == 2 && j.fields[0].first == "dims" && j.fields[1].first == "values", "multi-dimensional array " + at + " does not consist of dims and values");
        std::vector<int32_t> d;
        for (auto x : v.dimensions()) d.push_back(static_cast<int32_t>(x));
        represents(j.fields[0].second, d, at + ".dims");
        represents(j.fields[1].second, v.elements(), at + ".values");
    } else if constexpr (isReflectableClass<T>()) {
        kind(JV::Obj, "an object");
        size_t n = 0;
        for_each(refl::reflect<T>().members, [&](const auto member, auto) {
            using M                = std::remove_cvref_t<decltype(member(v))>;
            const std::string name = ser::fieldName(std::string_view(member.name));
            if constexpr (ser::is_ptr<M>::value) { if (!member(v)) return; }
            SEQ_CHECK(n < j.fields.size() && j.fields[n].first == name, "field " + at + "." + name + " is not written where it should be");
            represents(j.fields[n++].second, member(v), at + "." + name);
        });
        SEQ_CHECK(n == j.fields.size(), "additional JSON fields in " + at);
    } else if constexpr (requires { typename T::mapped_type; }) {
        kind(JV::Obj, "an object");
        SEQ_CHECK(j.fields.size() == v.size(), "map " + at + " has a different number of entries");
        for (auto &[k, x] : j.fields) {
            auto it = v.find(k);
            SEQ_CHECK(it != v.end(), "map " + at + " has no key " + k);
            represents(x, it->second, at + "[" + k + "]");
        }
    } else {
        kind(JV::Arr, "an array");
        SEQ_CHECK(j.items.size() == v.size(), "array " + at + " has " + std::to_string(j.items.size()) + " instead of " + std::to_string(v.size()) + " elements");
        size_t i = 0;
        for (const auto &x : v) { represents(j.items[i], static_cast<typename T::value_type>(x), at + "[" + std::to_string(i) + "]"); ++i; }
    }
}
// an independent writer with all freedoms of the notation: white space, escapes, field order, exponent form of numbers
struct Render {
    int         space;   // 0 none, 1 one blank everywhere, 2 all kinds of white space
    int         escapes; // 0 as few as possible, 1 every character in \u notation, 2 short escapes incl. '/'
    bool        reversed;
    std::string out;
    void ws() { out += space == 0 ? "" : space == 1 ? " " : "\r\n\t "; }
    void str(const std::string &s, bool key) {
        out += '"';
        for (size_t i = 0; i < s.size(); ++i) {
            const unsigned char c = static_cast<unsigned char>(s[i]);
            char                b[8];
            if (escapes == 1 && !key && c < 0x80) { snprintf(b, sizeof b, "\\u%04X", c); out += b; }
            else if (escapes == 1 && !key && c >= 0xc0 && c < 0xe0 && i + 1 < s.size()) { snprintf(b, sizeof b, "\\u%04x", ((c & 0x1f) << 6) | (s[i + 1] & 0x3f)); out += b; i += 1; }
            else if (escapes == 1 && !key && c >= 0xe0 && c < 0xf0 && i + 2 < s.size()) { snprintf(b, sizeof b, "\\u%04x", ((c & 0x0f) << 12) | ((s[i + 1] & 0x3f) << 6) | (s[i + 2] & 0x3f)); out += b; i += 2; }
            else if (escapes == 1 && !key && c >= 0xf0 && i + 3 < s.size()) {
                const unsigned u = (((c & 7u) << 18) | ((s[i + 1] & 0x3fu) << 12) | ((s[i + 2] & 0x3fu) << 6) | (s[i + 3] & 0x3fu)) - 0x10000;
                char           d[16];
                snprintf(d, sizeof d, "\\u%04x\\u%04X", 0xd800u + (u >> 10), 0xdc00u + (u & 0x3ffu));
                out += d;
                i += 3;
            } else if (c == '"' || c == '\\') { out += '\\'; out += static_cast<char>(c); }
            else if (c == '/' && escapes == 2) out += "\\/";
            else if (c == '\n' && escapes == 2) out += "\\n";
            else if (c == '\t' && escapes == 2) out += "\\t";
            else if (c == '\b' && escapes == 2) out += "\\b";
            else if (c == '\f' && escapes == 2) out += "\\f";
            else if (c == '\r' && escapes == 2) out += "\\r";
            else if (c < 0x20) { snprintf(b, sizeof b, "\\u%04x", c); out += b; }
            else out += static_cast<char>(c);
        }
        out += '"';
    }
    template<typename C, typename F>
    void list(char open, const C &c, char close, F f) {
        out += open;
        ws();
        bool first = true;
        for (const auto &x : c) {
            if (!first) { out += ','; ws(); }
            first = false;
            f(x);
            ws();
        }
        out += close;
    }
    template<typename T>
    void value(const T &v) {
        char b[64];
        if constexpr (is_annotated<T>) value(v.value());
        else if constexpr (ser::is_ptr<T>::value) value(*v);
        else if constexpr (std::is_same_v<T, bool>) out += v ? "true" : "false";
        else if constexpr (std::is_integral_v<T>) out += std::to_string(v);
        else if constexpr (std::is_floating_point_v<T>) {
            if (escapes == 2 && v == static_cast<T>(static_cast<long>(std::abs(v) < 1e15 ? v : 0)) && !(v == 0 && std::signbit(v))) out += std::to_string(static_cast<long>(v)); // a whole number
            else { snprintf(b, sizeof b, escapes == 1 ? "%.17G" : "%.17g", static_cast<double>(v)); out += b; }
        } else if constexpr (std::is_same_v<T, std::string>) str(v, false);
        else if constexpr (MultiArrayType<T>) {
            out += '{'; ws(); out += "\"dims\""; ws(); out += ':'; ws(); value(std::vector<int32_t>(v.dimensions().begin(), v.dimensions().end())); ws(); out += ','; ws();
            out += "\"values\""; ws(); out += ':'; ws(); value(v.elements()); ws(); out += '}';
        } else if constexpr (isReflectableClass<T>()) {
            std::vector<std::pair<std::string, std::function<void()>>> f;
            for_each(refl::reflect<T>().members, [&](const auto member, auto) {
                using M = std::remove_cvref_t<decltype(member(v))>;
                if constexpr (ser::is_ptr<M>::value) { if (!member(v)) return; }
                const M *m = &member(v);
                f.emplace_back(ser::fieldName(std::string_view(member.name)), [this, m] { value(*m); });
            });
            if (reversed) std::reverse(f.begin(), f.end());
            list('{', f, '}', [&](const auto &x) { str(x.first, true); ws(); out += ':'; ws(); x.second(); });
        } else if constexpr (requires { typename T::mapped_type; }) list('{', v, '}', [&](const auto &x) { str(x.first, true); ws(); out += ':'; ws(); value(x.second); });
        else list('[', v, ']', [&](const auto &x) { value(static_cast<typename T::value_type>(x)); });
    }
};
[[maybe_unused]] const auto wire = []<typename S>(std::string_view bytes, const S &s) { represents(Strict{ bytes }.document(), s, "object"); };
// every notation of the object reads as the object
template<typename S>
void renderings() {
    const S   s = ser::choosePair<S>();
    Render    r{ seq::choose(3), seq::choose(3), seq::choose(2) != 0, {} };
    r.ws();
    r.value(s);
    r.ws();
    IoBuffer b(r.out.data(), r.out.size());
    S        into;
    try {
        auto info = deserialise<Json, ProtocolCheck::ALWAYS>(b, into);
    } catch (...) { seq::fail(std::string("reading valid JSON throws: ") + what() + "\ntext: " + seq::quote(std::string_view(r.out).substr(0, 1500))); }
    if (!ser::same(s, into)) seq::fail("field '" + ser::firstDifference(s, into) + "' is read differently from " + seq::quote(std::string_view(r.out).substr(0, 1500)));
    seq::transition();
}
template<typename S>
void both(const std::string &n) {
    ser::nonFinite = false;
    seq::add("C27_" + n, [] { ser::pairs<Json, S>(wire); });
    seq::add("C27_notations_" + n, [] { renderings<S>(); });
}
} // namespace
