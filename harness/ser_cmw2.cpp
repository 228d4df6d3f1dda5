// C26: CmwLight
#include "ser_cmw.hpp"
namespace {
const int registered = [] {
    seq::add("C26_arrays", [] { ser::pairs<CmwLight, Arrays>(wire); });
    return 0;
}();
} // namespace
