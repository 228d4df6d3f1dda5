// C27: JSON
#include "ser_json.hpp"
namespace {
const int registered = [] {
    both<Scalars>("scalars");
    both<Shapes>("shapes");
    return 0;
}();
} // namespace
