// C47: malformed Json data
#include "malformed.hpp"
#include <IoSerialiserJson.hpp>
struct JsonContainers {
    std::set<int32_t>                           si;
    std::set<std::string>                       ss;
    std::map<std::string, int32_t>              msi;
    std::map<std::string, double>               msd;
    std::map<std::string, std::string>          mss;
    std::map<std::string, std::vector<int32_t>> msv;
    std::vector<Leaf>                           vl;
    int32_t                                     last = 0;
};
ENABLE_REFLECTION_FOR(JsonContainers, si, ss, msi, msd, mss, msv, vl, last)
namespace {
const int registered = [] {
    seq::add("C47_json_scalars", [] { malformed::run<Json, Scalars>(true); });
    seq::add("C47_json_arrays", [] { malformed::run<Json, Arrays>(true); });
    seq::add("C47_json_shapes", [] { malformed::run<Json, Shapes>(true); });
    seq::add("C47_json_nested", [] { malformed::run<Json, Nested>(true); });
    seq::add("C47_json_containers", [] { malformed::run<Json, JsonContainers>(true); });
    return 0;
}();
} // namespace
