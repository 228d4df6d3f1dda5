// C30: CmwLight
#include "ser_evo.hpp"
#include "ser_cmw.hpp"
namespace {
using namespace evo;
std::string fields(const std::vector<Field> &fs) {
    std::string r = raw(int32_t(fs.size()));
    for (auto &f : fs) {
        r += text(f.name);
        auto put = [&](const auto &v) { auto e = encode(v); r += raw(uint8_t(e.id)) + e.data; };
        switch (f.kind) {
        case K::I: put(f.i()); break;
        case K::L: put(f.l()); break;
        case K::S: put(f.t()); break;
        case K::D: put(f.d()); break;
        case K::VD: put(f.vd()); break;
        case K::VS: put(f.vs()); break;
        case K::MA: put(f.ma()); break;
        case K::MSI: put(f.msi()); break;
        case K::Nest: r += "\x08" + fields(f.sub); break;
        }
    }
    return r;
}
const int registered = [] {
    seq::add("C30_cmw", [] { evo::run<CmwLight>(fields, true, false, true, false); });
    seq::add("C30_cmw_wide", [] { evo::wide<CmwLight, Wide>(); });
    seq::add("C30_cmw_wide_binary", [] { evo::wide<CmwLight, WideBinary>(); });
    return 0;
}();
} // namespace
