// C25: YaS
#include "ser_yas.hpp"
namespace {
const int registered = [] {
    seq::add("C25_scalars", [] { ser::pairs<YaS, Scalars>(wire); });
    seq::add("C25_shapes", [] { ser::pairs<YaS, Shapes>(wire); });
    return 0;
}();
} // namespace
