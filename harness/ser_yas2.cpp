// C25: YaS
#include "ser_yas.hpp"
namespace {
const int registered = [] {
    seq::add("C25_arrays", [] { ser::pairs<YaS, Arrays>(wire); });
    return 0;
}();
} // namespace
