from props import *
MU = "3rd_party/kainjow/mustache.hpp"
MS = SER + "MustacheSerialiser.hpp"
prop("C46", "HTML templates render the data, escaped, and broken templates render nothing",
     "A template renders exactly what the mustache rules prescribe for its data: variables HTML-escaped unless marked unescaped, sections once per list element or once for a truthy value, inverted sections for missing/false/empty values, dotted names and enclosing contexts resolved, every time it is rendered. A template with unclosed or mismatched tags is reported invalid and renders nothing; no template text crashes the process. A service's reply is rendered with the template of that service, whichever services were rendered before, with all of its text, number, list, nested-object, annotated, content-type and timing fields; a service without template gets the default table with name, unit, description and value of every field.",
     ["inputs", "histories"], "all token sequences up to a length bound, all short texts over the tag characters, all values over the characters that need escaping, all combinations of field values and of templates used in one process",
     "tests render three fixed objects with two templates and no character that needs escaping",
     [MU, MS], [("engine", MU + ":parser,basic_mustache"), ("data binding", MS + ":mustache_data,serialise")],
     harness=[dict(kind="seq", src="mustache.cpp", flags=["-fno-sanitize=alignment"], parts={"C46_templates": 8, "C46_garbage": 8, "C46_serialiser": 8})],
     technique=SEQ, cov="all templates of up to 5 (6) of 20 tokens against a reference renderer (white space on section-only lines not compared), all texts <=6 (8) over {,},#,/,a,=,space,x, all values <=4 bytes over 10 characters, all combinations of object field values with three templates")
