// C26: CmwLight
#include "ser_cmw.hpp"
namespace {
const int registered = [] {
    seq::add("C26_scalars", [] { ser::pairs<CmwLight, Scalars>(wire); });
    seq::add("C26_shapes", [] { ser::pairs<CmwLight, Shapes>(wire); });
    return 0;
}();
} // namespace
