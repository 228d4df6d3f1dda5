// C35: MIME type lookup, C37: RBAC token parsing and role collection
#include "seq.h"
#include <majordomo/Rbac.hpp>
#include <map>
#include <MIME.hpp>
#include <set>
#include <sstream>

using namespace opencmw;
namespace {
// independently typed table of the supported types
struct T { std::string name; std::vector<std::string> ext; };
const std::vector<T> table = {
    { "text/css", { ".css" } }, { "text/csv", { ".csv" } }, { "text/event-stream", {} }, { "text/html", { ".htm", ".html" } }, { "text/calendar", { ".ics" } },
    { "text/javascript", { ".js", ".mjs" } }, { "application/json", { ".json" } }, { "application/ld+json", { ".jsonld" } }, { "text/plain", { ".txt" } }, { "text/xml", { ".xml" } },
    { "text/yaml", { ".yml", ".yaml" } }, { "audio/aac", { ".aac" } }, { "audio/midi", { ".mid", ".midi" } }, { "audio/mpeg", { ".mp3" } }, { "audio/opus", { ".opus" } },
    { "audio/wav", { ".wav" } }, { "audio/webm", { ".weba" } }, { "image/bmp", { ".bmp" } }, { "image/gif", { ".gif" } }, { "image/vnd.microsoft.icon", { ".ico" } },
    { "image/jpeg", { ".jpg", ".jpeg" } }, { "image/png", { ".png" } }, { "image/apng", { ".apng" } }, { "image/svg+xml", { ".svg" } }, { "image/tiff", { ".tif", ".tiff" } },
    { "image/webp", { ".webp" } }, { "video/x-msvideo", { ".avi" } }, { "video/mp2t", { ".ts" } }, { "video/mpeg", { ".mpeg" } }, { "video/webm", { ".webm" } },
    { "application/octet-stream", { ".bin" } }, { "application/cmwlight", { ".cmwlight" } }, { "application/x-bzip2", { ".bz2" } }, { "application/msword", { ".doc" } },
    { "application/vnd.openxmlformats-officedocument.wordprocessingml.document", { ".docx" } }, { "application/gzip", { ".gz" } }, { "application/java-archive", { ".jar" } },
    { "application/vnd.oasis.opendocument.presentation", { ".odp" } }, { "application/vnd.oasis.opendocument.spreadsheet", { ".ods" } }, { "application/vnd.oasis.opendocument.text", { ".odt" } },
    { "application/ogg", { ".ogx", ".ogv", ".oga" } }, { "application/pdf", { ".pdf" } }, { "application/x-httpd-php", { ".php" } }, { "application/vnd.ms-powerpoint", { ".ppt" } },
    { "application/vnd.openxmlformats-officedocument.presentationml.presentation", { ".pptx" } }, { "application/vnd.rar", { ".rar" } }, { "application/rtf", { ".rtf" } },
    { "application/x-tar", { ".tar" } }, { "application/vnd.visio", { ".vsd" } }, { "application/xhtml+xml", { ".xhtml" } }, { "application/vnd.ms-excel", { ".xls" } },
    { "application/vnd.openxmlformats-officedocument.spreadsheetml.sheet", { ".xlsx" } }, { "application/zip", { ".zip" } },
};
std::string lower(std::string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32); return s; }
std::string upper(std::string s) { for (auto &c : s) if (c >= 'a' && c <= 'z') c = static_cast<char>(c - 32); return s; }
std::string mixed(std::string s) { for (size_t i = 0; i < s.size(); i += 2) s[i] = upper(s.substr(i, 1))[0]; return s; }
std::string dressed(const std::string &s, int how) {
    switch (how) {
    case 0: return s;
    case 1: return upper(s);
    case 2: return mixed(s);
    case 3: return s + ";charset=utf-8";
    case 4: return s + ";q=0.9";
    case 5: return " " + s + " ";
    default: return "*/*;q=0.1, " + s + ", foo/bar";
    }
}
std::string name(const MIME::MimeType &m) { return std::string(m.typeName()); }

void mentions() { // each pair of types mentioned in a text, in each order and dressing
    size_t i = static_cast<size_t>(seq::choose(static_cast<int>(table.size())));
    int    h = seq::choose(7);
    {
        auto s = dressed(table[i].name, h);
        seq::transition();
        SEQ_CHECK(name(MIME::getType(s)) == table[i].name, "type of " + seq::quote(s) + " is " + name(MIME::getType(s)));
    }
    for (size_t j = 0; j < table.size(); ++j) {
        auto s = dressed(table[i].name, h) + "," + dressed(table[j].name, (h + 1) % 7);
        seq::transition();
        auto n = name(MIME::getType(s));
        SEQ_CHECK(n == table[std::min(i, j)].name, "type of " + seq::quote(s) + " is " + n + " instead of the first known one");
    }
}
void noMention() { // truncated, extended by separators, unrelated texts
    auto  &t   = seq::chooseFrom(table).name;
    size_t cut = static_cast<size_t>(seq::choose(static_cast<int>(t.size())));
    std::string variants[] = { t.substr(0, cut), t.substr(cut + 1), t.substr(0, cut) + "_" + t.substr(cut), t.substr(0, cut) + t.substr(cut + 1) };
    for (auto &s : variants) {
        std::string want = "unknown/unknown";
        for (auto &e : table) if (lower(s).find(e.name) != std::string::npos) { want = e.name; break; }
        seq::transition();
        SEQ_CHECK(name(MIME::getType(s)) == want, "type of " + seq::quote(s) + " is " + name(MIME::getType(s)) + " instead of " + want);
    }
    SEQ_CHECK(MIME::getType("unknown/unknown") == MIME::UNKNOWN && MIME::getType("") == MIME::UNKNOWN, "unknown type not recognised as such");
}
void fileNames() {
    auto                    &t    = seq::chooseFrom(table);
    static const std::string pre[] = { "", "a", "dir/a.b", "x.png", "ARCHIVE.TAR", ".", "/" };
    for (auto &e : t.ext)
        for (auto &p : pre)
            for (auto s : { p + e, p + upper(e), p + mixed(e) }) {
                seq::transition();
                SEQ_CHECK(name(MIME::getTypeByFileName(s)) == t.name, "type of file " + seq::quote(s) + " is " + name(MIME::getTypeByFileName(s)));
                for (auto suffix : { "~", ".", "_" }) SEQ_CHECK(MIME::getTypeByFileName(s + suffix) == MIME::UNKNOWN, "type of file " + seq::quote(s + suffix) + " is " + name(MIME::getTypeByFileName(s + suffix)));
            }
}
void shortNames() { // all short file names: exact suffix match against the table
    auto s = seq::chooseString(".jspngtaxzc2", seq::thorough() ? 6 : 5);
    std::string want = "unknown/unknown";
    for (auto &t : table) for (auto &e : t.ext) if (s.size() >= e.size() && s.substr(s.size() - e.size()) == e) { want = t.name; }
    seq::transition();
    SEQ_CHECK(name(MIME::getTypeByFileName(s)) == want, "type of file " + seq::quote(s) + " is " + name(MIME::getTypeByFileName(s)) + " instead of " + want);
}
constexpr int ctIndex(const MIME::MimeType &m) {
    for (size_t i = 0; i < MIME::ALL.size(); ++i) if (MIME::ALL[i] == m) return static_cast<int>(i);
    return -1;
}
// compile-time and run-time lookup agree
template<size_t... I>
void agree(std::index_sequence<I...>) {
    static constexpr const char *texts[] = { "text/html", "TEXT/HTML", "text/html,text/css", "text/css,text/html", "image/webp,image/apng,image/*", "application/json;q=1,text/plain", "text/plain,application/json", "a/b", "", "video/webm,audio/webm", "unknown/unknown,text/css", "text/yaml text/xml" };
    static constexpr const char *files[] = { "a.html", "A.HTM", "x.js", "x.mjs", "x.json", "x.jsonld", "x.tar.gz", "x.png.apng", "x", "", ".ts", "x.xhtml" };
    static constexpr int ct[] = { ctIndex(MIME::getType(texts[I]))... };
    static constexpr int cf[] = { ctIndex(MIME::getTypeByFileName(files[I]))... };
    for (size_t i = 0; i < sizeof...(I); ++i) {
        std::string s = texts[i], f = files[i];
        seq::transition(2);
        SEQ_CHECK(ctIndex(MIME::getType(s)) == ct[i], "type of " + seq::quote(s) + " is " + name(MIME::getType(s)) + " at run time but " + name(MIME::ALL[static_cast<size_t>(ct[i])]) + " at compile time");
        SEQ_CHECK(ctIndex(MIME::getTypeByFileName(f)) == cf[i], "type of file " + seq::quote(f) + " differs between compile time and run time");
    }
}
void tableContent() {
    SEQ_CHECK(MIME::ALL.size() >= table.size() + 1, "types are missing");
    for (auto &t : table) {
        auto &m = MIME::getType(t.name);
        std::vector<std::string> e(m.fileExtensions().begin(), m.fileExtensions().end());
        SEQ_CHECK(e == t.ext, "file extensions of " + t.name + " differ");
        std::ostringstream os;
        os << m;
        SEQ_CHECK(os.str() == t.name && std::format("{}", m) == t.name && std::string_view(m) == t.name, "text form of " + t.name + " is " + os.str());
        for (auto &u : table) SEQ_CHECK((MIME::getType(t.name) == MIME::getType(u.name)) == (t.name == u.name), "comparison of " + t.name + " and " + u.name);
    }
    agree(std::make_index_sequence<12>());
}

// ---- C37 ----
void tokens() {
    auto s = seq::chooseString("RBAC=,ax", seq::thorough() ? 8 : 6);
    if (seq::choose(2)) s = "RBAC=" + s;
    std::string role, hash;
    if (s.size() >= 5 && s.substr(0, 5) == "RBAC=") {
        auto c = s.find(',');
        if (c != std::string::npos) { role = s.substr(5, c - 5); hash = s.substr(c + 1); }
    }
    // exactly sized buffer: reading outside is caught by ASan
    std::unique_ptr<char[]> b(new char[s.size()]);
    memcpy(b.get(), s.data(), s.size());
    std::string_view v(b.get(), s.size());
    using namespace majordomo::parse_rbac;
    seq::transition(3);
    SEQ_CHECK(majordomo::parse_rbac::role(v) == role, "role of token " + seq::quote(s) + " is " + seq::quote(majordomo::parse_rbac::role(v)));
    SEQ_CHECK(majordomo::parse_rbac::hash(v) == hash, "hash of token " + seq::quote(s) + " is " + seq::quote(majordomo::parse_rbac::hash(v)));
    auto p = roleAndHash(v);
    SEQ_CHECK(p.first == role && p.second == hash, "role and hash of token " + seq::quote(s) + " are " + seq::quote(p.first) + " / " + seq::quote(p.second));
}
struct R1 : majordomo::Role<"OP", majordomo::Permission::RO> {};
struct R2 : majordomo::Role<"EXPERT", majordomo::Permission::WO> {};
template<typename Tup> std::vector<std::string> roleNames() {
    std::vector<std::string> r;
    [&]<size_t... I>(std::index_sequence<I...>) { (r.push_back(std::string(std::tuple_element_t<I, Tup>::name()) + "/" + std::to_string(static_cast<int>(std::tuple_element_t<I, Tup>::rights()))), ...); }(std::make_index_sequence<std::tuple_size_v<Tup>>());
    return r;
}
void roles() {
    using namespace majordomo;
    using V = std::vector<std::string>;
    auto n = [](const char *s, Permission p) { return std::string(s) + "/" + std::to_string(static_cast<int>(p)); };
    SEQ_CHECK((roleNames<find_roles<>>() == V{}), "no roles");
    SEQ_CHECK((roleNames<find_roles<ADMIN, int, R1>>() == V{ n("ADMIN", Permission::RW), n("OP", Permission::RO) }), "bare roles are not collected in order");
    SEQ_CHECK((roleNames<find_roles<rbac<ADMIN, R1>, std::string, rbac<R2>, NONE>>() == V{ n("ADMIN", Permission::RW), n("OP", Permission::RO), n("EXPERT", Permission::WO), n("NONE", Permission::NONE) }), "role lists are not collected in order");
    SEQ_CHECK((roleNames<find_roles<rbac<>, ANY, ANY_RO>>() == V{ n("ANY", Permission::RW), n("ANY", Permission::RO) }), "predefined roles have wrong names or rights");
    seq::transition(4);
}
const int registered = [] {
    seq::add("C35_mentions", mentions);
    seq::add("C35_no_mention", noMention);
    seq::add("C35_files", fileNames);
    seq::add("C35_short_files", shortNames);
    seq::add("C35_table", tableContent);
    seq::add("C37_tokens", tokens);
    seq::add("C37_roles", roles);
    return 0;
}();
} // namespace
