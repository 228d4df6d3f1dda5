// C28: YAML
#include "ser_yaml.hpp"
namespace {
const int registered = [] {
    seq::add("C28_tree", [] { ser::pairs<YAML, Tree>(wire); });
    seq::add("C28_pointers", [] { ser::pairs<YAML, Pointers>(wire); });
    seq::add("C28_nested", [] { ser::pairs<YAML, Nested>(wire); });
    return 0;
}();
} // namespace
