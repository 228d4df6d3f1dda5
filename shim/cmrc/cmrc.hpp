// stand-in for the generated CMakeRC header: an in-memory resource file system
#pragma once
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
namespace cmrc {
struct file {
    const std::string *content = nullptr;
    auto               cbegin() const { return content->data(); }
    auto               cend() const { return content->data() + content->size(); }
    auto               begin() const { return cbegin(); }
    auto               end() const { return cend(); }
    std::size_t        size() const { return content->size(); }
};
struct directory_entry {
    std::string name;
    std::string filename() const { return name; }
    bool        is_file() const { return true; }
    bool        is_directory() const { return false; }
};
struct embedded_filesystem {
    std::vector<directory_entry> iterate_directory(const std::string &) const { return {}; }
    std::map<std::string, std::string> *files = nullptr;
    bool exists(const std::string &p) const { return files && files->contains(p); }
    bool is_file(const std::string &p) const { return exists(p); }
    file open(const std::string &p) const {
        if (!exists(p)) throw std::runtime_error("no such resource: " + p);
        return { &files->at(p) };
    }
};
} // namespace cmrc
namespace cmrc::shim_ {
inline cmrc::embedded_filesystem get_filesystem() {
    static std::map<std::string, std::string> none;
    return { &none };
}
} // namespace cmrc::shim_
#define CMRC_DECLARE(x) \
    namespace cmrc::x { using cmrc::shim_::get_filesystem; } \
    static_assert(true)
