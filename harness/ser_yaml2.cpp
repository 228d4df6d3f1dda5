// C28: YAML arrays
#include "ser_yaml.hpp"
struct YamlArrays {
    std::vector<int8_t>      vi8;
    std::vector<int16_t>     vi16;
    std::vector<int32_t>     vi32;
    std::vector<int64_t>     vi64;
    std::vector<float>       vf;
    std::vector<double>      vd;
    std::vector<std::string> vs;
    std::array<int32_t, 3>   a3{};
    std::array<double, 2>    a2{};
    std::array<bool, 4>      ab{};
};
ENABLE_REFLECTION_FOR(YamlArrays, vi8, vi16, vi32, vi64, vf, vd, vs, a3, a2, ab)
namespace {
const int registered = [] {
    seq::add("C28_arrays", [] { ser::pairs<YAML, YamlArrays>(wire); });
    return 0;
}();
} // namespace
