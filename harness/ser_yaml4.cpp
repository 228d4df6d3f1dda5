// C28: YAML containers
#include "ser_yaml.hpp"
struct YamlContainers {
    std::set<int32_t>                  si;
    std::set<std::string>              ss;
    std::map<std::string, int32_t>     msi;
    std::map<std::string, double>      msd;
    std::map<std::string, std::string> mss;
    int32_t                            last = 0;
};
ENABLE_REFLECTION_FOR(YamlContainers, si, ss, msi, msd, mss, last)
namespace {
const int registered = [] {
    seq::add("C28_containers", [] { ser::pairs<YAML, YamlContainers>(wire); });
    return 0;
}();
} // namespace
