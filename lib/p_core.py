from props import *

URI = CORE + "URI.hpp"
prop("C01", "URI decomposition is the RFC 3986 one and loses nothing",
     "For every string of the form scheme:[//authority][path][?query][#fragment] or [/path][?query][#fragment] that the parser accepts, the scheme, authority, user, password, host, port, path, query and fragment it reports are exactly the substrings the RFC 3986 grammar assigns (a port that is not a number in 0..65535 is reported as absent), independent of the order in which they are asked for. Strict mode rejects, with a syntax exception and nothing else, every string containing a character that is not legal in the component it appears in; no input crashes the process.",
     ["inputs", "histories"], "all strings over the delimiter/letter/digit alphabet up to a length bound, all accessor orders, strict and relaxed mode",
     "the unit tests sample about two dozen hand-picked URIs; delimiters interact (':' in query, '@' in path, IPv6 brackets, empty components) in ways only enumeration reaches",
     [URI], [("single-pass parser and lazy authority split", URI + ":parseURI,parseAuthority"), ("strict character checks", URI + ":parseURI")],
     harness=[dict(kind="seq", src="uri.cpp", parts={"C01_all_strings": 8, "C01_structured": 8, "C01_strict_chars": 8})],
     technique=SEQ, cov="every string over a 12-letter delimiter alphabet up to length 6 (quick) / 7 (thorough) and every combination of component building blocks, both parser modes, each compared component by component with an independent RFC 3986 regex-grammar reference; all accessor orders on a structured subset; every permitted character in every component; every component at lengths across the small-string, 255/256, 4 KiB and 64 KiB limits; ASan/UBSan",
     observe=["accessors of a parsed URI"])

prop("C02", "Percent-coding round-trips and malformed escapes are contained",
     "Decoding the percent-encoding of any byte string gives the byte string back, and the encoded form contains only unreserved characters and upper-case two-digit escapes. Decoding arbitrary input never reads outside it: well-formed escapes are replaced by their byte, and a '%' that is not followed by two hex digits is a syntax exception in strict mode and kept literally in relaxed mode.",
     ["inputs"], "all byte strings up to a length bound, all byte pairs, all strings over the escape alphabet",
     "tests decode only what they encoded and never a truncated or non-hex escape, which is where an out-of-bounds read or a garbage byte appears",
     [URI], [("encode/decode", URI + ":encode,decode")],
     harness=[dict(kind="seq", src="uri.cpp", parts={"C02_bytes3": 4, "C02_decode_any": 8})],
     technique=SEQ, cov="all byte strings of length <=2 (quick) plus all length-3 strings over 40 representative bytes; all strings up to length 6 over {%,0,4,A,f,g,space,+,-,x}; every byte pair after a percent sign; lengths across the buffer-growth limits; in exactly sized heap buffers under ASan")

prop("C03", "URI builder output parses back to what was put in",
     "A URI assembled from a scheme, authority or user/password/host/port, path, query parameters and fragment parses back to exactly these components, with every query parameter key and value recovered after decoding whatever bytes they contain. Building is repeatable: rendering the same builder twice yields the same text, copying a URI through the builder without changes preserves its components, and replacing one component leaves the others untouched.",
     ["inputs", "histories"], "all combinations of component values from representative sets, all parameter maps over a reserved-character alphabet, all sequences of builder calls up to a bound",
     "the identity test covers a fixed list of URIs without reserved characters in parameters and renders each builder once",
     [URI], [("UriFactory", URI + ":UriFactory"), ("queryParamMap", URI + ":queryParamMap")],
     harness=[dict(kind="seq", src="uri.cpp", parts={"C03_components": 4, "C03_params": 4})],
     technique=SEQ, cov="cartesian product of component values; all 1- and 2-entry parameter maps with keys/values over a reserved-character alphabet; all sequences of 3 (quick) / 4 (thorough) of 19 builder calls from four starting points (empty, two parsed URIs, pre-filled) incl. repeated rendering, copies and emptied queries, both parser modes; query texts <=6 over the separators; long components; compared with a record of what was set")

prop("C04", "URI objects are independent values",
     "After any sequence of copies, moves, assignments, swaps and destructions, every live URI reports exactly the components of the text it was last given, and accessing, assigning or destroying any other URI, including the source of a copy or move, never changes or invalidates them. Equality, ordering and hash agree with the text.",
     ["histories", "inputs"], "all sequences of value operations up to a depth over a pool of objects holding short and long texts, in every lazy-parsing state",
     "the components are views into the owned text, so each operation has to re-anchor them; tests exercise two such sequences",
     [URI], [("copy/move re-anchoring of views", URI + ":operator=")],
     harness=[dict(kind="seq", src="uri.cpp", parts={"C04_value_ops": 8})],
     technique=SEQ, cov="all operation sequences of length <=4 (quick) / 5 (thorough) over 3 objects with short (SSO) and long texts, observing all components after each step under ASan; order, equality and hash of all pairs of a list of texts that are prefixes, differ in case or in high bytes")

B64 = MAJ + "base64pp.hpp"
prop("C05", "Base64 encoding is RFC 4648 and decoding inverts it",
     "The encoding of every byte sequence is its padded RFC 4648 base64 text, and decoding that text returns the same bytes.",
     ["inputs"], "all byte sequences up to a length bound and every residue of the length modulo three",
     "tests use a dozen fixed vectors; a wrong table entry, shift or padding branch only shows for particular bytes/lengths",
     [B64], [("encode/decode", B64)],
     harness=[dict(kind="seq", src="base64.cpp", parts={"C05_all3": 8})],
     technique=SEQ, cov="all byte strings of length <=2 and all of length 3 over 128 representative bytes (all 2^24 in thorough), all single-byte variations of longer strings up to 13 bytes, all lengths up to 1024 and around larger powers of two up to 196 KiB with position-dependent bytes, against an independent RFC 4648 implementation")
prop("C06", "Base64 decoding accepts exactly the well-formed texts",
     "Decoding succeeds for every text that is a sequence of complete groups over the base64 alphabet with padding only at the very end, and reports failure, without reading out of bounds, for every other text.",
     ["inputs"], "all texts up to a length bound over a representative alphabet including every byte value",
     "tests reject four malformed strings; the set of malformed texts is unbounded",
     [B64], [("is_valid_base64_str", B64 + ":is_valid_base64_char,is_valid_base64_str")],
     harness=[dict(kind="seq", src="base64.cpp", parts={"C06_all": 8})],
     technique=SEQ, cov="all texts of length <=8 over representative characters, every byte value in every position of groups of 4 and 8, against an RFC 4648 grammar; ASan on exactly sized buffers")

RW = CORE + "ReaderWriterLock.hpp"
prop("C07", "Readers and writers never hold the lock at the same time",
     "In every interleaving, no thread holds the reader/writer lock for reading while another holds it for writing; any number of readers, or any number of writers, may hold it together. Everything a holder wrote before releasing is visible to later holders of the other kind, a try-lock never blocks, acquires when the lock is free and uncontended and reports truthfully whether it acquired, the count reported equals the number of current holders, and every blocking acquisition succeeds once the conflicting holders are gone.",
     ["schedules"], "all interleavings up to the preemption bound of 2-3 threads performing lock/try/scoped/unlock operations of either kind",
     "the unit tests are single threaded",
     [RW], [("CAS loop on signed holder count", RW + ":lock,tryLock,unlock")],
     harness=[dict(kind="mc", src="rwlock.cpp"), ], technique=MC, assume=MC_ASSUME,
     cov="every schedule (preemption bound 3-4 quick, 5+ thorough) of reader/writer thread combinations on the real lock; exclusion, holder count, data-race freedom of protected data and termination checked on each; single-threaded operation sequences enumerated against a counter model")

SW = CORE + "SpinWait.hpp"
prop("C08", "Spin mutex gives mutual exclusion and publication",
     "In every interleaving at most one thread is between lock and unlock of a spin mutex, whatever a thread wrote inside is seen by the next owner, and a thread that waits for the mutex gets it after the owner releases it.",
     ["schedules"], "all interleavings up to the preemption bound of 2-3 contending threads, every spin-wait policy",
     "the unit test locks and unlocks once from a single thread",
     [SW], [("AtomicMutex", SW + ":AtomicMutex")],
     harness=[dict(kind="mc", src="spin.cpp")], technique=MC, assume=MC_ASSUME,
     cov="every schedule of 2-3 threads x 1-2 critical sections for the three ways of waiting, try_lock/unlock histories, holders that stay longer than the spinning phases; race detector on the protected data")
prop("C09", "Spin-until returns the truth, on time, and never hangs or gives up",
     "Waiting for a condition returns true exactly when the condition was observed true, never returns false without a timeout having been given and elapsed, never returns false before that timeout has elapsed, checks the condition at least once, and with a finite timeout returns soon after it elapses even if the condition never becomes true. Timeouts below -1 are rejected, zero means check once, -1 means wait for ever.",
     ["schedules", "inputs", "configurations"], "all interleavings of the waiter with the thread that makes the condition true, all timeout values of a representative set, all spin/yield/sleep phases, on a virtual clock",
     "tests use one condition that becomes true after three calls and one zero timeout",
     [SW], [("spinUntil", SW + ":spinUntil,spinOnce")],
     harness=[dict(kind="mc", src="spin.cpp"), ], technique=MC, assume=MC_ASSUME + ["time is a virtual clock advanced by sleeps and by clock polling"],
     cov="virtual-clock exploration of timeout values (1 us .. days, none) x moments at which the condition turns true (all phases of the back-off, and never) x spin configurations x schedules; wall-clock steps must not matter")

TA = CORE + "ThreadAffinity.hpp"
prop("C10", "Thread/process attributes: what is set is what is got, failures are reported",
     "Setting a CPU affinity, name or scheduling parameter and reading it back gives the value set (names cut to the OS limit of 15 characters), passes the OS exactly the requested CPUs, policy and priority, and never reads outside the caller's data. Whenever the OS refuses, or the thread/process handle or priority is invalid, the call throws a system error that can be inspected after it was caught, and no call reports success without effect.",
     ["inputs", "fault_sequences", "configurations"], "all affinity masks for up to 8 CPUs, all name lengths including views into longer buffers, all policies x a priority range, each OS call failing with each documented error",
     "tests run with the privileges and CPU count of one machine and cannot make the OS fail",
     [TA], [("pthread/sched wrappers", TA)],
     harness=[dict(kind="seq", src="affinity.cpp", ldflags=["-Wl,--wrap=pthread_setname_np,--wrap=pthread_getname_np,--wrap=pthread_setaffinity_np,--wrap=pthread_getaffinity_np,--wrap=sched_setaffinity,--wrap=sched_getaffinity,--wrap=pthread_setschedparam,--wrap=pthread_getschedparam,--wrap=sched_setscheduler,--wrap=sched_getscheduler,--wrap=sched_getparam,--wrap=sched_setparam"])],
     technique="exhaustive enumeration of inputs and injected OS failures against a simulated OS",
     cov="all masks of 0..10 CPUs, all names of length 0..40, policies x priorities -2..101, every wrapped OS call failing with every error code of a list, against a reference model of the OS state (own and foreign threads and processes, more than 1024 CPUs, names with arbitrary bytes); all histories of three set/get calls, each single call failing; the OS calls are replaced by recording stand-ins")

BS = DIS + "BasicSetting.hpp"
prop("C11", "Real-time setting: readers see whole, latest values and the RT side never waits",
     "For a setting shared between one real-time thread and any number of other threads, every access observes exactly one value that was completely written before (never a torn or freed one), successive accesses of a thread never go back to an older value, an access that starts after a write has finished sees that write or a newer one, and the writer's own later modifications build on its latest value. The real-time side performs its operations without ever waiting for another thread.",
     ["schedules"], "all interleavings up to the preemption bound of one real-time thread with one or two non-real-time threads, for both ownership modes, guard and replace access",
     "tests are single threaded; tearing, lost updates and use of a replaced object need particular interleavings",
     [BS], [("RealtimeMutable double buffer", BS + ":RealtimeMutable"), ("NonRealtimeMutable pointer swap", BS + ":NonRealtimeMutable")],
     harness=[dict(kind="mc", src="basicsetting.cpp")], technique=MC, assume=MC_ASSUME,
     cov="every schedule of RT thread x 1-2 NRT threads with 1-3 operations each on multi-word values with invariants; heap use-after-free and race detection; RT wait-freedom checked by bounding RT steps while the other side is stalled")

TP = CORE + "ThreadPool.hpp"
prop("C22", "Thread pool runs every task once, promptly, in order, and shuts down",
     "A task handed to a running pool is executed exactly once, by a thread of the pool, without waiting for any time-out while threads of the pool are idle; its result or exception reaches the holder of its future together with the effects of the task. Queued tasks start in order of priority, equal priorities in the order they were accepted. A pool for blocking tasks starts further threads while all are busy, up to its limit, and gives idle ones up again after the keep-alive time, never below the minimum. Shutting down, by request or destruction, lets running tasks finish, resolves the future of every task (with a result exactly if it ran), ends all threads and returns without waiting for a time-out. CPU affinity and names given to the pool or a task apply to the threads of the pool, not to the caller.",
     ["schedules", "histories"], "all interleavings up to the preemption bound of 1-2 callers with 1-3 pool threads, both pool kinds, all priority assignments of 4 queued tasks, all affinity masks of 4 cores",
     "the unit tests sample one schedule per run and hide lost wake-ups behind the 10 s keep-alive time-out",
     [TP], [("hand-over and sleeping", TP + ":execute,worker"), ("task queue", TP + ":TaskQueue"), ("shutdown", TP + ":requestShutdown,~BasicThreadPool")],
     harness=[dict(kind="mc", src="threadpool.cpp")], technique=MC, hook="OPENCMW_VERIFICATION_THREADPOOL_N_SPIN: length of the idle loop of a worker before it sleeps",
     assume=MC_ASSUME + ["the idle loop before a pool thread goes to sleep is shortened from 256 to 1 iteration (guarded hook in ThreadPool.hpp)", "virtual time only advances when nothing else can run"],
     cov="every schedule up to 1-2 preemptions (quick) / 2-3 (thorough) of 16 scenarios; race, use-after-free, deadlock and exactly-once checks; waiting for the keep-alive time-out counts as a lost wake-up")
