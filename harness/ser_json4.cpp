// C27: JSON containers
#include "ser_json.hpp"
struct JsonContainers {
    std::set<int32_t>                           si;
    std::set<std::string>                       ss;
    std::map<std::string, int32_t>              msi;
    std::map<std::string, double>               msd;
    std::map<std::string, std::string>          mss;
    std::map<std::string, std::vector<int32_t>> msv;
    std::vector<Leaf>                           vl;
    int32_t                                     last = 0;
};
ENABLE_REFLECTION_FOR(JsonContainers, si, ss, msi, msd, mss, msv, vl, last)
namespace ser {
template<>
struct Candidates<Leaf> { static std::vector<Leaf> get() { return { Leaf{}, Leaf{ 3, { 1.5 } }, Leaf{ -1, { 0., 2. } } }; } };
} // namespace ser
namespace {
const int registered = [] {
    both<JsonContainers>("containers");
    return 0;
}();
} // namespace
