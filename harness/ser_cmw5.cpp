// C26: sizes of fields, names of fields
#include "ser_cmw.hpp"
namespace {
const int registered = [] {
    seq::add("C26_sizes", [] { ser::sizes<CmwLight>(wire, true); });
    seq::add("C26_names", [] { ser::pairs<CmwLight, Names>(wire); });
    return 0;
}();
} // namespace
