// C25: sizes of fields, names of fields
#include "ser_yas.hpp"
struct Modified {
    Annotated<int32_t, NoUnit, "d", ExternalModifier::RW_DEPRECATED>                                             deprecated = 1;
    Annotated<int32_t, NoUnit, "p", ExternalModifier::RW_PRIVATE>                                                hidden     = 2;
    Annotated<double, units::isq::si::length<units::isq::si::metre>, "r", ExternalModifier::RO>                  readOnly   = 3.0;
    Annotated<int32_t, NoUnit, "", ExternalModifier::RO_PRIVATE, "g">                                            both       = 4;
    Annotated<std::string, NoUnit, "text", ExternalModifier::RO_DEPRECATED>                                      text       = std::string("t");
};
ENABLE_REFLECTION_FOR(Modified, deprecated, hidden, readOnly, both, text)
namespace {
const int registered = [] {
    seq::add("C25_sizes", [] { ser::sizes<YaS>(wire, true); });
    seq::add("C25_names", [] { ser::pairs<YaS, Names>(wire); });
    seq::add("C25_modifiers", [] { // the access modifiers are transported; unchecked reading ignores them
        Modified m;
        ser::chooseValue(m);
        IoBuffer w;
        serialise<YaS>(w, m);
        seq::transition();
        wire(std::string_view(reinterpret_cast<const char *>(w.data()), w.size()), m);
        Modified r;
        ser::dirty(r);
        const auto info = deserialise<YaS, ProtocolCheck::IGNORE>(w, r);
        SEQ_CHECK(info.exceptions.empty() && ser::same(m, r), "field '" + ser::firstDifference(m, r) + "' differs after reading back unchecked");
    });
    return 0;
}();
} // namespace
