// C27: JSON
#include "ser_json.hpp"
namespace {
const int registered = [] {
    both<Tree>("tree");
    both<Pointers>("pointers");
    both<Nested>("nested");
    return 0;
}();
} // namespace
