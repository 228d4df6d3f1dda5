from props import *
IB = SER + "IoBuffer.hpp"
MA = SER + "MultiArray.hpp"
NOAL = ["-fno-sanitize=alignment,nonnull-attribute"]
prop("C29", "IoBuffer is a faithful byte sequence that is never accessed outside its content",
     "Whatever history of writes, reads, resizing, reserving, shrinking, clearing, copying, moving, assigning and swapping a buffer has, its bytes are exactly what was written, in order, whatever its initial capacity and memory source; typed reads in the order of the writes return the written values and end at the end of the content. Copies are independent and equal, a moved-from buffer is empty and usable, self-assignment changes nothing, every block goes back to the memory resource it came from exactly once with its size, wrapped foreign memory is never freed or grown. Reading never touches bytes outside the content: the range-checked accessors throw exactly when the requested bytes are not all inside, typed reads behind the end yield no content and never move the position backwards.",
     ["inputs", "histories"], "all operation histories up to a length bound over two buffers and six kinds of memory source, all contents up to a length bound read at every position with every type",
     "tests use one growing buffer at a time; capacity corner cases, foreign memory resources and reads at the end need particular histories",
     [IB], [("growth and ownership", IB + ":reallocate,reserve_spare,swap,operator="), ("typed access", IB + ":put,get,getArray,at,skip,asString")],
     harness=[dict(kind="seq", src="iobuffer.cpp", flags=NOAL, parts={"C29_histories": 8, "C29_puts": 8, "C29_bounds": 8})],
     technique=SEQ, cov="all histories of <=4 (5) operations out of 4 writes and 15 structural operations from 6x2 start configurations, all sequences of <=4 (5) of 12 typed writes read back, all contents of <=6 (7) bytes over {0,2,7f,ff} at every position")
prop("C31", "MultiArray addresses its elements row-major for every shape",
     "For every shape a multi-dimensional array holds the product of its dimensions elements, every index tuple addresses exactly one element in row-major order through every accessor, index() and indices() are inverse, checked access behind the end throws, copies and arithmetic work element by element without changing their operands, and arrays are equal exactly if shape and elements are. This includes arrays with custom row-major strides, offsets and padding.",
     ["inputs"], "all shapes with up to four dimensions and extents 0..3, all construction ways, all elements",
     "tests look at one 2-d and one 3-d shape",
     [MA], [("addressing", MA + ":index,indices,operator[],get"), ("construction", MA + ":MultiArray")],
     harness=[dict(kind="seq", src="iobuffer.cpp", flags=NOAL)],
     technique=SEQ, cov="1..4 dimensions, extents 0..3, 3 constructors, every element as the differing one; 1..3 dimensions with all offsets 0..2 and padding 0..1 per dimension")
IS = SER + "IoSerialiser.hpp"
SER_WHY = "tests round-trip a few fixed objects; lost, swapped or truncated values need particular boundary values, sizes or field combinations"
prop("C25", "YaS: every object is written in the YaS format and read back unchanged",
     "For every object built from numbers, texts, arrays, multi-dimensional arrays, sets, maps, nested and annotated fields and set or empty smart pointers, the YaS bytes are exactly those of the format (header, type ids, offsets and sizes that allow skipping a field, names, units/descriptions, payload), whatever the capacity of the buffer, and reading them back, into a fresh or a re-used object and at every protocol check level, yields an equal object, reports no error and consumes exactly the message.",
     ["inputs"], "all combinations of boundary values of every pair of fields for each of the object layouts", SER_WHY,
     [SER + "IoSerialiserYaS.hpp", IS, IB], [("field encoding", SER + "IoSerialiserYaS.hpp:IoSerialiser<YaS, T>"), ("headers", SER + "IoSerialiserYaS.hpp:FieldHeaderWriter,FieldHeaderReader,putHeaderInfo,checkHeaderInfo"), ("object traversal", IS + ":serialise,deserialise")],
     harness=[dict(kind="seq", src="ser_yas.cpp", extra=["ser_yas2.cpp", "ser_yas3.cpp", "ser_yas4.cpp", "ser_yas5.cpp"], flags=NOAL, suar=False, parts={"C25_scalars": 8, "C25_arrays": 8, "C25_shapes": 8, "C25_tree": 8, "C25_pointers": 8, "C25_nested": 8, "C25_containers": 8, "C25_sizes": 4})],
     technique=SEQ, cov="seven object layouts, every pair of fields, all candidate values (integers incl. min/max, floats incl. subnormal/infinite/NaN, texts incl. control characters, NUL, UTF-8, 300 bytes, containers of 0..200 elements, all shapes with extents 0..3); fields of every size around 2^5..2^16; unusual field names; access modifiers")
prop("C26", "CmwLight: every object is written in the CmwLight format and read back unchanged",
     "For every object built from numbers, texts, arrays, multi-dimensional arrays, sets, variants, maps with text keys, nested and annotated fields and set or empty smart pointers, the CmwLight bytes are exactly those of the format (field counts, names, type ids, payload), whatever the capacity of the buffer, and reading them back, into a fresh or a re-used object and at every protocol check level, yields an equal object, reports no error and consumes exactly the message.",
     ["inputs"], "all combinations of boundary values of every pair of fields for each of the object layouts", SER_WHY,
     [SER + "IoSerialiserCmwLight.hpp", IS, IB], [("field encoding", SER + "IoSerialiserCmwLight.hpp:IoSerialiser<CmwLight, T>"), ("headers", SER + "IoSerialiserCmwLight.hpp:FieldHeaderWriter,FieldHeaderReader"), ("object traversal", IS + ":serialise,deserialise")],
     harness=[dict(kind="seq", src="ser_cmw.cpp", extra=["ser_cmw2.cpp", "ser_cmw3.cpp", "ser_cmw4.cpp", "ser_cmw5.cpp"], flags=NOAL, suar=False, parts={"C26_scalars": 8, "C26_arrays": 8, "C26_shapes": 8, "C26_tree": 8, "C26_pointers": 8, "C26_nested": 8, "C26_containers": 8, "C26_sizes": 4})],
     technique=SEQ, cov="seven object layouts, every pair of fields, all candidate values as for C25, variants and maps of variants; fields of every size around 2^5..2^16; unusual field names")
prop("C27", "JSON: every object is written as valid JSON and every notation of it reads back",
     "For every object built from finite numbers, texts, arrays, multi-dimensional arrays, sets, maps with text keys, nested and annotated fields, lists of objects and set or empty smart pointers, the written text is valid JSON (RFC 8259) that an independent reader sees as exactly these fields and values in order, whatever the capacity of the buffer; reading it back, into a fresh or a re-used object and at every protocol check level, yields an equal object and reports no error. The same object in any other JSON notation (white space, field order, escapes including \\u sequences and surrogate pairs, number forms) is read as the same object. Not-a-number and infinity have no JSON notation and are excluded.",
     ["inputs"], "all combinations of boundary values of every pair of fields for each of the object layouts, 18 notations each", SER_WHY,
     [SER + "IoSerialiserJson.hpp", IS, IB], [("values", SER + "IoSerialiserJson.hpp:IoSerialiser<Json, T>"), ("texts", SER + "IoSerialiserJson.hpp:writeString,readString,readKey"), ("headers", SER + "IoSerialiserJson.hpp:FieldHeaderWriter,FieldHeaderReader")],
     harness=[dict(kind="seq", src="ser_json.cpp", extra=["ser_json2.cpp", "ser_json3.cpp", "ser_json4.cpp", "ser_json5.cpp"], flags=NOAL, suar=False, parts={a + b: 8 for a in ("C27_", "C27_notations_") for b in ("scalars", "arrays", "shapes", "tree", "pointers", "nested", "containers")})],
     technique=SEQ, cov="seven object layouts, every pair of fields, all candidate values, written text checked by a strict parser, 3 white space x 3 escape/number x 2 order notations read; fields of every size around 2^5..2^16 (text formats up to 4097 quick); unusual field names")
prop("C28", "YAML: every object is written as readable YAML and read back unchanged",
     "For every object built from numbers, booleans, single-line texts without quotes, commas and comment signs, arrays, sets, maps with text keys, nested and annotated fields and set or empty smart pointers, the written text is a YAML document with one entry per field, properly indented, in one-line or line-broken form depending on its length, and reading it back, into a fresh or a re-used object and at every protocol check level, yields an equal object and reports no error.",
     ["inputs"], "all combinations of boundary values of every pair of fields for each of the object layouts", SER_WHY,
     [SER + "IoSerialiserYAML.hpp", IS], [("values", SER + "IoSerialiserYAML.hpp:fieldFormatter,fieldParser"), ("headers", SER + "IoSerialiserYAML.hpp:FieldHeaderWriter,FieldHeaderReader")],
     harness=[dict(kind="seq", src="ser_yaml.cpp", extra=["ser_yaml2.cpp", "ser_yaml3.cpp", "ser_yaml4.cpp", "ser_yaml5.cpp"], flags=NOAL, suar=False, parts={"C28_scalars": 8, "C28_arrays": 8, "C28_tree": 8, "C28_pointers": 8, "C28_nested": 8, "C28_containers": 8, "C28_sizes": 4})],
     technique=SEQ, cov="six object layouts, every pair of fields, all candidate values, written text checked by an independent reader of the YAML subset; fields of every size around 2^5..2^16 (text formats up to 4097 quick); unusual field names")
prop("C30", "Objects are read from messages with other fields without losing the common ones",
     "A message whose fields differ from the object it is read into - fields missing, in another order, repeated, unknown to the object (scalars, arrays, matrices, maps, nested structures, also inside nested structures), of another type or unit - sets exactly the fields of the object it has in matching form and leaves all other fields untouched, in all four formats (wrong types: in the formats that carry type identifiers). Unchecked reading neither throws nor reports; lenient reading never throws and reports one problem for each field that does not fit, lists exactly the unknown fields, and flags exactly the fields set; checked reading throws a protocol exception exactly if something does not fit.",
     ["inputs", "histories"], "all sequences of message fields up to a length bound, for all formats and check levels",
     "tests know one message with two deviations; whether a reader gets out of step behind an unknown or mismatching field depends on the combination of fields",
     [IS, SER + "IoSerialiserYaS.hpp", SER + "IoSerialiserCmwLight.hpp", SER + "IoSerialiserJson.hpp", SER + "IoSerialiserYAML.hpp"],
     [("field dispatch", IS + ":deserialise"), ("skipping", SER + "IoSerialiserCmwLight.hpp:IoSerialiser<CmwLight, OTHER>"), ("skipping", SER + "IoSerialiserJson.hpp:skipValue")],
     harness=[dict(kind="seq", src="evo_yas.cpp", extra=["evo_cmw.cpp", "evo_json.cpp", "evo_yaml.cpp"], flags=NOAL, suar=False, parts={"C30_yas": 8, "C30_cmw": 8, "C30_json": 8, "C30_yaml": 8})],
     technique=SEQ, cov="all messages of <=4 (5) out of 15..28 kinds of fields x 4 formats x 3 check levels; one unknown field of each of 26 kinds with each candidate value in each format; every kind and notation of an unknown JSON value; every value of each version byte and protocol letter of the YaS header")
prop("C47", "Malformed serialised data is rejected or read partly, never crashes the reader",
     "Whatever bytes a message in one of the four formats has - cut short at any point, with any byte, length or count changed, bytes removed or inserted - reading it ends with an error or a result, at every protocol check level: no access outside the message or the object, no terminated process, no endless loop, no memory request out of proportion to the message, no undefined arithmetic; and what was read is usable (arrays have as many elements as their dimensions say, the object can be written again).",
     ["inputs"], "all truncations and all single changes (byte values, 32-bit values, removed and inserted bytes) of valid messages of five object layouts in four formats",
     "tests read well-formed messages; which position and value derails a reader is not known beforehand",
     [IS, IB, SER + "IoSerialiserYaS.hpp", SER + "IoSerialiserCmwLight.hpp", SER + "IoSerialiserJson.hpp", SER + "IoSerialiserYAML.hpp"],
     [("field headers", SER + "IoSerialiserYaS.hpp:FieldHeaderReader"), ("arrays", IB + ":getArray"), ("skipping", SER + "IoSerialiserCmwLight.hpp:IoSerialiser<CmwLight, OTHER>"), ("texts", SER + "IoSerialiserJson.hpp:readString,skipValue")],
     harness=[dict(kind="seq", src="mal_yas.cpp", extra=["mal_cmw.cpp", "mal_json.cpp", "mal_yaml.cpp"], flags=NOAL, suar=False, parts={f"C47_{f}_{l}": 4 for f in ("yas", "cmw", "json", "yaml") for l in ("scalars", "arrays", "shapes", "nested", "containers") if (f, l) != ("yaml", "shapes")})],
     technique=SEQ, cov="5 object layouts x 2 fillings x 4 formats x 3 check levels, every position, 18..25 byte values, 13 32-bit values, removed and inserted bytes")
