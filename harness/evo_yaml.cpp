// C30: YAML
#include "ser_evo.hpp"
#include "ser_yaml.hpp"
namespace {
using namespace evo;
std::string fields(const std::vector<Field> &fs, int depth) {
    std::string r, ind(static_cast<size_t>(2 * depth), ' ');
    auto        join = [](const auto &c, auto f) { std::string x; for (auto &e : c) x += (x.empty() ? "" : ", ") + f(e); return x; };
    auto        num  = [](double d) { return std::to_string(d); };
    auto        str  = [](const std::string &s) { return "\"" + s + "\""; };
    for (auto &f : fs) {
        r += ind + f.name + ":";
        switch (f.kind) {
        case K::I: r += " " + std::to_string(f.i()) + " # int\n"; break;
        case K::L: r += " " + std::to_string(f.l()) + "\n"; break;
        case K::S: r += " " + str(f.t()) + "   # text\n"; break;
        case K::D: r += " " + num(f.d()) + "\n"; break;
        case K::VD: r += " [" + join(f.vd(), num) + "]\n"; break;
        case K::VS: r += "     # texts\n"; for (auto &s : f.vs()) r += ind + "  - " + str(s) + "\n"; break;
        case K::MA: r += " [" + join(f.ma().elements(), num) + "]\n"; break;
        case K::MSI: r += "    # map\n"; for (auto &[k, v] : f.msi()) r += ind + "  " + k + ": " + std::to_string(v) + "\n"; break;
        case K::Nest: r += "\n" + fields(f.sub, depth + 1) + ind + "# end - " + f.name + "\n"; break;
        }
    }
    return r;
}
const int registered = [] {
    seq::add("C30_yaml", [] { evo::run<YAML>([](const std::vector<Field> &fs) { return "---\nEvo:\n" + fields(fs, 1) + "# end - Evo\n...\n"; }, false, false); });
    seq::add("C30_yaml_wide", [] { evo::wide<YAML, Wide>(); });
    return 0;
}();
} // namespace
