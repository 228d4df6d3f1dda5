"""one line per property: what the check compares with, and the typical cost of the quick tier on 8 cores (used by gen.py for DESIGN.md)"""
O = {
"C01": ("hand-written RFC 3986 splitter plus character classes per component", 40),
"C02": ("own percent coder and decoder", 25),
"C03": ("a record of the components and parameters put in", 45),
"C04": ("a vector of plain strings, re-parsed by the C01 splitter after every step; lexicographic order of the texts", 30),
"C05": ("own RFC 4648 encoder", 10),
"C06": ("RFC 4648 grammar", 5),
"C07": ("shadow counters of readers/writers inside, race detector on the protected data, sequential counter model", 11),
"C08": ("shadow counter, race detector on the protected data", 10),
"C09": ("virtual clock and the recorded values of the condition", 10),
"C10": ("simulated operating system (threads, processes, masks, names, scheduling) recording every call; fault injection into each of them", 20),
"C11": ("monotone version numbers in multi-word values, use-after-free and race detection, bound on the steps of the real-time thread while all others are stalled", 25),
"C12": ("published sequence vs. consumed sequence, race detector on the slots, deadlock detection", 40),
"C13": ("set of claimed numbers vs. consumed sequence, race detector on the slots", 60),
"C14": ("deadlock/livelock detection (lost wake-up), virtual clock, publication state at return", 41),
"C15": ("per-handler log against the dependency graph, race detector on the handlers' modifications", 150),
"C16": ("count per event; scripted barrier that enumerates every way batches, time-outs and alerts can arrive", 51),
"C17": ("log of life-cycle calls and events; scripted barrier as for C16", 49),
"C18": ("positions of registered consumers vs. producer, use-after-free detection", 48),
"C19": ("counting model of claimed/published/consumed; interval bounds under concurrency", 70),
"C20": ("reference model of history, staging list and expiry", 67),
"C21": ("linearisation: every result must be explained by some order of the operations", 49),
"C22": ("execution counts, order of start, virtual time (waiting for a time-out is a violation)", 40),
"C23": ("exactly-once counts, per-producer order, virtual time", 50),
"C24": ("call log", 15),
"C25": ("independent YaS reader/writer in the harness and object equality", 41),
"C26": ("independent CmwLight reader/writer and object equality", 30),
"C27": ("independent strict JSON parser and object equality", 48),
"C28": ("independent reader of the YAML subset and object equality", 42),
"C29": ("std::vector<uint8_t> model, ASan, counting memory resource", 28),
"C30": ("the fields of the message that exist in both layouts, defaults for the others", 34),
"C31": ("row-major index formula over a plain vector", 24),
"C32": ("independent selector grammar", 20),
"C33": ("pair (service, parameter map)", 25),
"C34": ("independent matcher", 20),
"C35": ("independently typed table of MIME types", 12),
"C36": ("field-wise equality, independent number grammar", 20),
"C37": ("independent token grammar", 12),
"C38": ("frame model with reference counts (fake ZeroMQ)", 30),
"C39": ("reference broker: set of possible assignments, every reply matched with its request", 50),
"C40": ("reference subscription table", 40),
"C41": ("time line of heartbeats over virtual time", 40),
"C42": ("a probe request/reply after each hostile message", 45),
"C43": ("reference worker (registration, permissions, replies) over virtual time; race detection", 69),
"C44": ("table of outstanding requests and subscriptions, scripted broker", 80),
"C45": ("own encoders/decoders of the bodies, expected handler calls", 50),
"C46": ("reference mustache renderer", 30),
"C47": ("ASan/UBSan, only documented exception types, common prefix of the object", 70),
"C48": ("reference directory over virtual time", 50),
"C49": ("own client that reassembles frames; byte-exact bodies, life of the socket", 55),
"C50": ("table of streams and outstanding requests", 60),
"C51": ("list of notifications per topic since the first poll", 65),
"C52": ("own resolution of the path over the tree of files; longest-match routing", 60),
"C53": ("scripted server: table of requests and of polls per topic", 60),
}
