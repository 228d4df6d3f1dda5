// C27: JSON
#include "ser_json.hpp"
namespace {
const int registered = [] {
    both<Arrays>("arrays");
    return 0;
}();
} // namespace
