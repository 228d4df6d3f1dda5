// C25: YaS
#include "ser_yas.hpp"
namespace {
const int registered = [] {
    seq::add("C25_tree", [] { ser::pairs<YaS, Tree>(wire); });
    seq::add("C25_pointers", [] { ser::pairs<YaS, Pointers>(wire); });
    seq::add("C25_nested", [] { ser::pairs<YaS, Nested>(wire); });
    return 0;
}();
} // namespace
