// C47: malformed YaS data
#include "malformed.hpp"
#include <IoSerialiserYaS.hpp>
struct YasContainers {
    std::set<int32_t>                  si;
    std::set<std::string>              ss;
    std::map<std::string, int32_t>     msi;
    std::map<std::string, double>      msd;
    std::map<std::string, std::string> mss;
    std::map<int32_t, int64_t>         mii;
    std::unordered_map<int16_t, std::string> uis;
    std::map<std::string, std::vector<int32_t>> msv;
    std::map<std::string, std::map<std::string, int32_t>> msm;
};
ENABLE_REFLECTION_FOR(YasContainers, si, ss, msi, msd, mss, mii, uis, msv, msm)
namespace {
const int registered = [] {
    seq::add("C47_yas_scalars", [] { malformed::run<YaS, Scalars>(false); });
    seq::add("C47_yas_arrays", [] { malformed::run<YaS, Arrays>(false); });
    seq::add("C47_yas_shapes", [] { malformed::run<YaS, Shapes>(false); });
    seq::add("C47_yas_nested", [] { malformed::run<YaS, Nested>(false); });
    seq::add("C47_yas_containers", [] { malformed::run<YaS, YasContainers>(false); });
    return 0;
}();
} // namespace
