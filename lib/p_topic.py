from props import *

URI_H = CORE + "URI.hpp"
TC = CORE + "TimingCtx.hpp"
prop("C32", "Timing selectors: parsing, matching, ordering and hash follow the text",
     "A timing context always reflects its current selector text and time stamp, whenever and in whatever order either was changed and read, also when it is the right-hand side of a comparison or match. The text is accepted exactly if it is empty, 'ALL', or 'FAIR.SELECTOR.' followed by 'ALL' or ':'-separated tags C=, S=, P=, T= with an integer or ALL each, in any case; every other text is rejected with invalid_argument on every access and never taken for a wildcard. Matching is wildcard inclusion of the other context, equality/ordering/hash agree with each other, and the rendered text reads back as an equal selector.",
     ["inputs", "histories"], "all selector texts over the grammar's alphabet up to a length bound, all tag combinations, all pairs of field vectors over {wildcard, 0, 3}, all histories of selector changes, reads, comparisons and copies up to a depth",
     "parsing is lazy and cached behind a hash of the text; tests change the selector of one object twice and never compare against a changed right-hand side",
     [TC], [("lazy parse and cache", TC + ":parse"), ("matching", TC + ":matches,matchesWithBpcts"), ("order/equality/hash", TC + ":operator<=>,operator==,hash")],
     harness=[dict(kind="seq", src="timingctx.cpp", suar=False, parts={"C32_selectors": 8, "C32_tags": 8, "C32_histories": 8, "C32_relations": 4})],
     technique=SEQ, cov="all texts of length <=5 (6) after the prefix over 13 characters, all 1-2 (3) tag combinations over 8 keys x 23 values, all orders of four tags, all 6561 field-vector pairs x time stamps, all histories of length 4 (5) over two contexts, against an independent grammar",
     observe=["cid/sid/pid/gid, toString, matches, comparison, hash"])

TP = CORE + "Topic.hpp"
prop("C33", "Topics survive every textual form and distinct topics stay distinct",
     "A topic's service name and query parameters, whatever bytes keys and values contain, are recovered from its MDP (URI) form and from its ZMQ subscription form, with or without delimiter. Equal topics, in whatever order their parameters were written, have the same ZMQ form and hash; different topics have different ZMQ forms, none of which is a prefix of another. Service names outside [A-Za-z0-9/._] or empty are rejected with an exception, trailing slashes do not matter, and giving parameters both in the text and separately is rejected. (A parameter with empty value counts as one without value.)",
     ["inputs"], "all service texts up to a length bound, all parameter maps over a reserved-character alphabet, all parameter orders, all pairs of a family of confusable topics",
     "delivery of subscriptions depends on byte equality and prefix-freedom of the ZMQ form; tests use harmless keys and values",
     [TP, URI_H], [("text forms", TP + ":toZmqTopic,toMdpTopic,fromZmqTopic,fromMdpTopic,fromString"), ("service validation", TP + ":isValidServiceName")],
     harness=[dict(kind="seq", src="topic.cpp", suar=False, parts={"C33_services": 8, "C33_parameters": 4, "C33_query_texts": 4, "C33_distinct": 4})],
     technique=SEQ, cov="all service texts <=5 (6) over 10 characters; all 1- and 2-parameter maps with keys/values up to 2 bytes over reserved characters; all ordered parameter lists of <=3 of 8 items; all texts of the ZeroMQ form <=5 (6) over its delimiters; long services, keys and values; replacing parameters; all pairs of 620 confusable topics")
SM = MAJ + "SubscriptionMatcher.hpp"
FI = CORE + "Filters.hpp"
prop("C34", "A notification matches a subscription exactly when every filter accepts it",
     "A notification matches a subscription if and only if the service names are identical and, for every parameter of the subscription for which a filter is registered, the notification carries that parameter and the filter accepts the pair (notified, subscribed); parameters without filter and further parameters of the notification are ignored. The number filter accepts equal, completely and exactly representable numbers only, the timing filter accepts notified contexts included in the subscribed one, the content-type filter equal texts, and a value that a domain type rejects never matches and never terminates the process.",
     ["inputs"], "all pairs of notification/subscription parameter maps over representative valid, boundary and invalid values for every filter type",
     "tests sample two dozen pairs; wrong direction, a skipped parameter or an out-of-range number taken for zero only shows for particular pairs",
     [SM, FI, TC, TP], [("matcher", SM + ":operator(),testQueries"), ("filters", FI + ":DomainFilter,NumberFilter")],
     harness=[dict(kind="seq", src="topic.cpp", suar=False, parts={"C34_combined": 8, "C34_numbers": 8, "C34_single": 2})],
     technique=SEQ, cov="all single-parameter pairs for 6 filters (14 values each for number and timing filters), all combinations of 5 parameters on both sides (57600 pairs), all pairs of decimal texts <=3 characters, against an independent matcher model")
MI = CORE + "MIME.hpp"
prop("C35", "MIME lookup finds the known type by name or file ending, else UNKNOWN",
     "Looking up a content type finds, whatever the case and whatever parameters or further list entries surround it, the known type mentioned in the text, the first in table order if several are, and UNKNOWN if none is. Looking up a file name finds the type that owns the file's ending in any case, and UNKNOWN otherwise. Both give the same answer at compile time and at run time, and name, endings, text form and comparison of every type are consistent.",
     ["inputs"], "all pairs of known types in all dressings (case, parameters, lists), all single-character deletions/insertions of every name, all endings of every type, all short file names over the endings' letters",
     "tests look up a dozen names; a wrong table entry, search or case folding only shows for particular types or lists, and compile-time evaluation is a separate code path",
     [MI], [("lookup", MI + ":getType,getTypeByFileName"), ("table", MI + ":ALL")],
     harness=[dict(kind="seq", src="mime.cpp", parts={"C35_short_files": 8})],
     technique=SEQ, cov="53 types x 7 dressings x 53 partners, every cut position of every name, every ending x case x 7 stems x trailing characters, all file names <=5 (6) over 12 characters, 24 lookups evaluated both by the compiler and at run time, against an independently typed table")
RB = MAJ + "Rbac.hpp"
prop("C37", "RBAC tokens yield the role and hash they carry, malformed tokens yield neither",
     "A token 'RBAC=<role>,<hash>' yields exactly that role and hash through every accessor; a token without the prefix or without a comma yields an empty role and an empty hash, so that a malformed token never carries a role. Nothing outside the token is read. The roles of a service are all roles listed for it, in order, with their names and rights.",
     ["inputs"], "all tokens over the alphabet of the grammar up to a length bound, with and without the prefix",
     "tests parse four tokens",
     [RB], [("token parsing", RB + ":parse_rbac"), ("role collection", RB + ":find_roles")],
     harness=[dict(kind="seq", src="mime.cpp", parts={"C37_tokens": 8})],
     technique=SEQ, cov="all tokens of length <=6 (8) over {R,B,A,C,=,',',a,x}, alone and behind the prefix, in exactly sized heap buffers under ASan")
QS = SER + "QuerySerialiser.hpp"
prop("C36", "Query objects survive the way through query parameters unchanged",
     "Turning a query/filter object into query parameters and back, directly, through a URI or through a subscription topic, yields an equal object for every value of its text, boolean, integer, floating-point, content-type and timing fields (booleans with default false; texts non-empty where a URI is involved). Reading arbitrary parameters never throws: a missing or malformed parameter leaves the field at its default, well-formed ones are taken, unrelated ones ignored. The filters registered for an object accept a notification about the same values and reject one whose number differs.",
     ["inputs"], "all combinations of representative and boundary field values, all combinations of present/absent/malformed parameters",
     "tests convert one object with harmless values; precision loss, reserved characters and boundary numbers need particular values",
     [QS, URI_H, TP, FI], [("per-type conversion", QS + ":QuerySerialiser"), ("object conversion", QS + ":serialise,deserialise,registerTypes,getMimeType")],
     harness=[dict(kind="seq", src="query.cpp", suar=False, flags=["-fno-sanitize=alignment"], parts={"C36_malformed": 8, "C36_numbers": 8, "C36_round_trips": 4})],
     technique=SEQ, cov="all combinations of 6 texts x 2 flags x 12 doubles x 2 types x 2 selectors x 6 notes, 10x10x10 integers x 8 floats, all 54 content types, 4*6*10*7*4*6*4 parameter maps incl. malformed values")
