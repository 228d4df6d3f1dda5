// C46: template engine and HTML serialiser
#include "seq.h"
#include <MustacheSerialiser.hpp>
#include <sstream>

using namespace opencmw;
namespace {
std::string escape(const std::string &s) {
    std::string r;
    for (char c : s) {
        if (c == '&') r += "&amp;";
        else if (c == '<') r += "&lt;";
        else if (c == '>') r += "&gt;";
        else if (c == '"') r += "&quot;";
        else if (c == '\'') r += "&apos;";
        else r += c;
    }
    return r;
}
std::string squeeze(std::string s) { std::erase_if(s, [](char c) { return c == ' ' || c == '\n'; }); return s; }

// ---- engine: generic data tree and reference renderer --------------------------------------------------------------
struct Node {
    enum K { Str, True, False, List, Obj } k = Obj;
    std::string                 s;
    std::vector<Node>           items;
    std::map<std::string, Node> fields;
    mutable size_t              it = 0;

    // like the serialiser's data classes, a list is iterable once per lookup
    mutable std::vector<std::unique_ptr<Node>> copies;
    Node() = default;
    Node(const Node &o) : k(o.k), s(o.s), items(o.items), fields(o.fields) {}
    Node &operator=(const Node &o) { k = o.k; s = o.s; items = o.items; fields = o.fields; return *this; }
    const Node *get(const std::string &n) const {
        auto f = fields.find(n);
        if (f == fields.end()) return nullptr;
        if (f->second.k != List) return &f->second;
        copies.push_back(std::make_unique<Node>(f->second));
        return copies.back().get();
    }
    const std::string &string_value() const { return s; }
    const Node *next_list_item() const { return it == items.size() ? nullptr : &items[it++]; }
    bool is_string() const { return k == Str; }
    bool is_false() const { return k == False; }
    bool is_true() const { return k == True; }
    bool is_empty_list() const { return k == List && items.empty(); }
    bool is_non_empty_list() const { return k == List && !items.empty(); }
    bool is_partial() const { return false; }
    std::string operator()() const { return {}; }
    const Node &partial_value() const { return *this; }
};
Node str(std::string s) { Node n; n.k = Node::Str; n.s = std::move(s); return n; }
Node list(std::vector<Node> v) { Node n; n.k = Node::List; n.items = std::move(v); return n; }
Node flag(bool b) { Node n; n.k = b ? Node::True : Node::False; return n; }
Node obj(std::map<std::string, Node> f) { Node n; n.fields = std::move(f); return n; }

struct Tok { char kind; std::string name; }; // 't' text, 'v' escaped, 'u' unescaped, '#', '^', '/', '!'
const Node *lookup(const std::vector<const Node *> &st, const std::string &name) {
    if (name == ".") return st.back();
    std::vector<std::string> parts(1);
    for (char c : name) { if (c == '.') parts.emplace_back(); else parts.back() += c; }
    for (auto i = st.rbegin(); i != st.rend(); ++i) {
        const Node *n = *i;
        for (auto &p : parts) { n = n->get(p); if (!n) break; }
        if (n) return n;
    }
    return nullptr;
}
void refRender(const std::vector<Tok> &t, size_t from, size_t to, std::vector<const Node *> &st, std::string &out) {
    for (size_t i = from; i < to; ++i) {
        if (t[i].kind == 't') out += t[i].name;
        else if (t[i].kind == 'v' || t[i].kind == 'u') { auto *n = lookup(st, t[i].name); if (n && n->k == Node::Str) out += t[i].kind == 'v' ? escape(n->s) : n->s; }
        else if (t[i].kind == '#' || t[i].kind == '^') {
            size_t depth = 1, j = i + 1;
            for (; j < to; ++j) { if (t[j].kind == '#' || t[j].kind == '^') ++depth; if (t[j].kind == '/' && --depth == 0) break; }
            auto *n     = lookup(st, t[i].name);
            bool  falsy = !n || n->k == Node::False || n->is_empty_list();
            if (t[i].kind == '^' ? falsy : !falsy) {
                if (n && n->is_non_empty_list()) for (auto &e : n->items) { st.push_back(&e); refRender(t, i + 1, j, st, out); st.pop_back(); }
                else if (n) { st.push_back(n); refRender(t, i + 1, j, st, out); st.pop_back(); }
                else refRender(t, i + 1, j, st, out);
            }
            i = j;
        }
    }
}
bool balanced(const std::vector<Tok> &t) {
    std::vector<std::string> open;
    for (auto &x : t) {
        if (x.kind == '#' || x.kind == '^') open.push_back(x.name);
        if (x.kind == '/') { if (open.empty() || open.back() != x.name) return false; open.pop_back(); }
    }
    return open.empty();
}
std::string render(const std::vector<Tok> &t) {
    std::string s;
    for (auto &x : t) switch (x.kind) {
        case 't': s += x.name; break;
        case 'v': s += "{{" + x.name + "}}"; break;
        case 'u': s += x.name == "s" ? "{{{" + x.name + "}}}" : "{{&" + x.name + "}}"; break;
        default: s += std::string("{{") + x.kind + x.name + "}}";
        }
    return s;
}
using NS = kainjow::mustache_ns<std::string, Node>;
void templates() {
    static const std::vector<Tok> toks = { { 't', "x" }, { 't', "<b>" }, { 'v', "s" }, { 'u', "s" }, { 'u', "o.s" }, { '#', "l" }, { '/', "l" }, { '^', "e" }, { '/', "e" }, { '#', "o" }, { '/', "o" }, { 'v', "." }, { 'v', "o.s" }, { '#', "f" }, { '/', "f" }, { 't', "\n" }, { '!', " note " }, { '#', "t" }, { '/', "t" }, { 'v', "nix" } };
    std::vector<Tok> t;
    int              max = seq::thorough() ? 6 : 5;
    while (static_cast<int>(t.size()) < max) {
        int c = seq::choose(static_cast<int>(toks.size()) + 1);
        if (c == 0) break;
        auto &x = toks[static_cast<size_t>(c - 1)];
        t.push_back(x);
    }
    const Node data = obj({ { "s", str("a<\"'&>") }, { "l", list({ str("1"), obj({ { "s", str("in<") } }) }) }, { "e", list({}) }, { "o", obj({ { "s", str("o'") } }) }, { "f", flag(false) }, { "t", flag(true) } });
    auto text = render(t);
    seq::transition();
    NS::mustache m(text);
    bool         ok = balanced(t);
    SEQ_CHECK(m.is_valid() == ok, "template " + seq::quote(text) + (ok ? " rejected: " + m.error_message() : " accepted"));
    for (int pass = 0; pass < 2; ++pass) { // rendering twice gives the same
        std::ostringstream os;
        m.render(data, os);
        if (!ok) { SEQ_CHECK(os.str().empty(), "invalid template " + seq::quote(text) + " renders something"); return; }
        std::string                want;
        std::vector<const Node *>  st = { &data };
        refRender(t, 0, t.size(), st, want);
        SEQ_CHECK(squeeze(os.str()) == squeeze(want), "template " + seq::quote(text) + " renders " + seq::quote(os.str()) + " instead of " + seq::quote(want));
        if (text.find("#") == std::string::npos && text.find("^") == std::string::npos) SEQ_CHECK(os.str() == want, "template " + seq::quote(text) + " renders " + seq::quote(os.str()) + " instead of " + seq::quote(want));
    }
}
void garbage() { // arbitrary template texts are contained
    auto text = seq::chooseString("{}#/a= x", seq::thorough() ? 8 : 6);
    const Node data = obj({ { "a", str("<") }, { "x", list({ str("1") }) } });
    NS::mustache m(text);
    seq::transition();
    std::ostringstream os;
    m.render(data, os);
    SEQ_CHECK(m.is_valid() || os.str().empty(), "invalid template " + seq::quote(text) + " renders something");
    if (text.find("{{") == std::string::npos) SEQ_CHECK(m.is_valid() && os.str() == text, "plain text " + seq::quote(text) + " renders as " + seq::quote(os.str()));
    if (text.find("}}") == std::string::npos && text.find("{{") != std::string::npos) SEQ_CHECK(!m.is_valid(), "unclosed tag in " + seq::quote(text) + " accepted");
}
void escapes() { // every byte string is escaped exactly
    auto s = seq::chooseString(std::string("&<>\"'a;\n\x80\xff", 10), 4);
    NS::mustache m("[{{s}}|{{{s}}}|{{&s}}|{{#l}}{{.}}{{/l}}]");
    Node         data = obj({ { "s", str(s) }, { "l", list({ str(s) }) } });
    std::ostringstream os;
    m.render(data, os);
    seq::transition();
    auto want = "[" + escape(s) + "|" + s + "|" + s + "|" + escape(s) + "]";
    SEQ_CHECK(os.str() == want, "value " + seq::quote(s) + " renders as " + seq::quote(os.str()));
}
} // namespace

// ---- serialiser ----------------------------------------------------------------------------------------------------
struct MInner { std::string name; int v = 0; };
ENABLE_REFLECTION_FOR(MInner, name, v)
struct MObj {
    std::string              name;
    int                      num  = 0;
    double                   real = 0;
    std::vector<std::string> tags;
    std::vector<MInner>      inner;
    Annotated<std::string, NoUnit, "annotated text"> note = std::string();
    Annotated<double, units::isq::si::length<units::isq::si::metre>, "a length"> len = 0.;
    MIME::MimeType           type = MIME::UNKNOWN;
    TimingCtx                ctx;
    std::set<std::string>    marks;
    MultiArray<int, 1>       arr;
};
ENABLE_REFLECTION_FOR(MObj, name, num, real, tags, inner, note, len, type, ctx, marks, arr)
struct MCtx { TimingCtx ctx; std::string filter; };
ENABLE_REFLECTION_FOR(MCtx, ctx, filter)
namespace {
std::map<std::string, std::string> files = {
    { "assets/mustache/custom.mustache", "{{result.name}}|{{result.num}}|{{result.note}}|{{result.type}}|{{result.ctx}}|{{#result.tags}}<{{.}}>{{/result.tags}}{{^result.tags}}none{{/result.tags}}|{{#result.inner}}({{name}},{{v}}){{/result.inner}}|{{#result.marks}}[{{.}}]{{/result.marks}}|{{query.filter}}|{{&result.name}}|{{#result.tags}}<{{.}}>{{/result.tags}}|{{#result.arr}}{{.}};{{/result.arr}}" },
    { "assets/mustache/other.mustache", "other:{{result.name}}" },
    { "assets/mustache/default.mustache", "{{#result.fields}}[{{name}}|{{unit}}|{{description}}|{{value}}|{{&value}}]{{/result.fields}}{{result.typeName}}" },
};
struct Case { std::string name; int num; std::vector<std::string> tags; int inner; std::string note, filter; std::vector<int> arr; };
std::string run(const std::string &worker, const MObj &o, const MCtx &c) {
    cmrc::embedded_filesystem fs{ &files };
    std::ostringstream        os;
    mustache::serialise(fs, worker, os, std::pair<std::string, const MObj &>{ "result", o }, std::pair<std::string, const MCtx &>{ "query", c });
    return os.str();
}
void serialiser() {
    static const std::vector<std::string> texts = { "", "plain", "<i>&\"'", "{{x}}" };
    MObj o;
    MCtx c;
    o.name = seq::chooseFrom(texts);
    o.note = std::string(seq::chooseFrom(texts));
    c.filter = seq::chooseFrom(texts);
    o.num  = std::array{ 0, -7, 2147483647 }[static_cast<size_t>(seq::choose(3))];
    int nt = seq::choose(3);
    for (int i = 0; i < nt; ++i) o.tags.push_back(texts[static_cast<size_t>(seq::choose(4))]);
    int ni = seq::choose(3);
    for (int i = 0; i < ni; ++i) o.inner.push_back({ texts[static_cast<size_t>(2 - i)], i });
    if (ni == 2) o.marks = { "m<", "a" };
    o.type = ni ? MIME::HTML : MIME::UNKNOWN;
    o.ctx  = nt ? TimingCtx(1, 2) : TimingCtx();
    if (ni) o.arr = MultiArray<int, 1>(std::vector<int>{ 3, 1, 2 }, { 3u });
    std::string tags, inner, marks, arr;
    for (auto &t : o.tags) tags += "<" + escape(t) + ">";
    for (auto &i : o.inner) inner += "(" + escape(i.name) + "," + std::to_string(i.v) + ")";
    for (auto &m : o.marks) marks += "[" + escape(m) + "]";
    if (ni) arr = "3;1;2;";
    auto want = escape(o.name) + "|" + std::to_string(o.num) + "|" + escape(o.note.value()) + "|" + std::string(o.type.typeName()) + "|" + o.ctx.toString() + "|" + (tags.empty() ? "none" : tags) + "|" + inner + "|" + marks + "|" + escape(c.filter) + "|" + o.name + "|" + tags + "|" + arr;
    seq::transition();
    auto got = run("custom", o, c);
    SEQ_CHECK(got == want, "custom template renders " + seq::quote(got) + " instead of " + seq::quote(want));
    auto got2 = run("other", o, c);
    SEQ_CHECK(got2 == "other:" + escape(o.name), "the template of another service renders " + seq::quote(got2));
}
void fallback() {
    static const std::vector<std::string> texts = { "", "plain", "<i>&\"'" };
    MObj o;
    MCtx c;
    o.name = seq::chooseFrom(texts);
    o.note = std::string(seq::chooseFrom(texts));
    o.num  = std::array{ 0, -7, 2147483647 }[static_cast<size_t>(seq::choose(3))];
    int nt = seq::choose(3);
    for (int i = 0; i < nt; ++i) o.tags.push_back("t" + std::to_string(i));
    seq::transition();
    auto got  = run("without_template", o, c);
    auto want = [&](const std::string &n, const std::string &u, const std::string &d, const std::string &v) {
        auto s = "[" + n + "|" + u + "|" + d + "|" + escape(v) + "|" + v + "]";
        SEQ_CHECK(got.find(s) != std::string::npos, "default template does not show " + seq::quote(s) + " but " + seq::quote(got));
    };
    want("name", "", "", o.name);
    want("note", "", "annotated text", o.note.value());
    want("num", "", "", std::to_string(o.num));
    want("ctx", "", "", "FAIR.SELECTOR.ALL");
    want("type", "", "", "unknown/unknown");
    std::string t = "[";
    for (auto &x : o.tags) t += (t.size() > 1 ? ", " : "") + ("\"" + x + "\"");
    want("tags", "", "", t + "]");
    SEQ_CHECK(got.find("[len|m|a length|") != std::string::npos, "unit or description missing in " + seq::quote(got));
}
const int registered = [] {
    seq::add("C46_templates", templates);
    seq::add("C46_garbage", garbage);
    seq::add("C46_escapes", escapes);
    seq::add("C46_serialiser", serialiser);
    seq::add("C46_fallback", fallback);
    return 0;
}();
} // namespace
