// C47: malformed YAML data
#include "malformed.hpp"
#include <IoSerialiserYAML.hpp>
struct YamlContainers {
    std::set<int32_t>                  si;
    std::set<std::string>              ss;
    std::map<std::string, int32_t>     msi;
    std::map<std::string, double>      msd;
    std::map<std::string, std::string> mss;
    int32_t                            last = 0;
};
ENABLE_REFLECTION_FOR(YamlContainers, si, ss, msi, msd, mss, last)
struct YamlArrays {
    std::vector<int8_t>      vi8;
    std::vector<int32_t>     vi32;
    std::vector<double>      vd;
    std::vector<std::string> vs;
    std::array<int32_t, 3>   a3{};
};
ENABLE_REFLECTION_FOR(YamlArrays, vi8, vi32, vd, vs, a3)
namespace {
const int registered = [] {
    seq::add("C47_yaml_scalars", [] { malformed::run<YAML, Scalars>(true); });
    seq::add("C47_yaml_arrays", [] { malformed::run<YAML, YamlArrays>(true); });
    seq::add("C47_yaml_nested", [] { malformed::run<YAML, Nested>(true); });
    seq::add("C47_yaml_containers", [] { malformed::run<YAML, YamlContainers>(true); });
    return 0;
}();
} // namespace
