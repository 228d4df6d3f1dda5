// C26: CmwLight
#include "ser_cmw.hpp"
namespace {
const int registered = [] {
    seq::add("C26_tree", [] { ser::pairs<CmwLight, Tree>(wire); });
    seq::add("C26_pointers", [] { ser::pairs<CmwLight, Pointers>(wire); });
    seq::add("C26_nested", [] { ser::pairs<CmwLight, Nested>(wire); });
    return 0;
}();
} // namespace
