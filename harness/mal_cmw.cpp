// C47: malformed CmwLight data
#include "malformed.hpp"
#include <IoSerialiserCmwLight.hpp>
using Var = std::variant<int32_t, double, std::string, std::vector<float>>;
struct CmwContainers {
    std::set<int32_t>              si;
    std::set<std::string>          ss;
    std::map<std::string, int32_t> msi;
    std::map<std::string, double>  msd;
    std::map<std::string, std::string> mss;
    std::map<std::string, Var>     msv;
    Var                            var;
    int32_t                        last = 0;
};
ENABLE_REFLECTION_FOR(CmwContainers, si, ss, msi, msd, mss, msv, var, last)
namespace {
const int registered = [] {
    seq::add("C47_cmw_scalars", [] { malformed::run<CmwLight, Scalars>(false); });
    seq::add("C47_cmw_arrays", [] { malformed::run<CmwLight, Arrays>(false); });
    seq::add("C47_cmw_shapes", [] { malformed::run<CmwLight, Shapes>(false); });
    seq::add("C47_cmw_nested", [] { malformed::run<CmwLight, Nested>(false); });
    seq::add("C47_cmw_containers", [] { malformed::run<CmwLight, CmwContainers>(false); });
    return 0;
}();
} // namespace
