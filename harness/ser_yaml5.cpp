// C28: sizes of fields, names of fields
#include "ser_yaml.hpp"
namespace {
const int registered = [] {
    seq::add("C28_sizes", [] { ser::sizes<YAML>(wire, false, false); });
    seq::add("C28_names", [] { ser::pairs<YAML, Names>(wire); });
    return 0;
}();
} // namespace
