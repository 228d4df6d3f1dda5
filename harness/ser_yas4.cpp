// C25: YaS
#include "ser_yas.hpp"
struct YasContainers {
    std::set<int32_t>                  si;
    std::set<std::string>              ss;
    std::map<std::string, int32_t>     msi;
    std::map<std::string, double>      msd;
    std::map<std::string, std::string> mss;
    std::map<int32_t, int64_t>         mii;
    std::unordered_map<int16_t, std::string> uis;
    std::map<std::string, std::vector<int32_t>> msv;
    std::map<std::string, std::map<std::string, int32_t>> msm;
};
ENABLE_REFLECTION_FOR(YasContainers, si, ss, msi, msd, mss, mii, uis, msv, msm)

namespace {
const int registered = [] {
    seq::add("C25_containers", [] { ser::pairs<YaS, YasContainers>(wire); });
    return 0;
}();
} // namespace
