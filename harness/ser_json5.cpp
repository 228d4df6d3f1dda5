// C27: sizes of fields, names of fields
#include "ser_json.hpp"
namespace {
const int registered = [] {
    seq::add("C27_sizes", [] { ser::sizes<Json>(wire, false); });
    both<Names>("names");
    return 0;
}();
} // namespace
