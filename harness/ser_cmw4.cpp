// C26: CmwLight containers
#include "ser_cmw.hpp"
using Var = std::variant<int32_t, double, std::string, std::vector<float>>;
namespace ser {
template<>
struct Candidates<Var> {
    static std::vector<Var> get() { return { Var(int32_t(5)), Var(1.5), Var(std::string("v")), Var(std::vector<float>{ 1.f, -2.f }), Var(std::string()), Var(std::vector<float>{}) }; }
};
template<>
bool same(const Var &a, const Var &b) { return a == b; }
} // namespace ser
struct CmwContainers {
    std::set<int32_t>              si;
    std::set<std::string>          ss;
    std::map<std::string, int32_t> msi;
    std::map<std::string, double>  msd;
    std::map<std::string, std::string> mss;
    std::map<std::string, Var>     msv;
    Var                            var;
    int32_t                        last = 0;
};
ENABLE_REFLECTION_FOR(CmwContainers, si, ss, msi, msd, mss, msv, var, last)
namespace {
const int registered = [] {
    seq::add("C26_containers", [] { ser::pairs<CmwLight, CmwContainers>(wire); });
    return 0;
}();
} // namespace
