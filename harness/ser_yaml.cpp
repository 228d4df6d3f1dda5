// C28: YAML
#include "ser_yaml.hpp"
namespace {
const int registered = [] {
    seq::add("C28_scalars", [] { ser::pairs<YAML, Scalars>(wire); });
    return 0;
}();
} // namespace
