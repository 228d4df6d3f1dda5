from props import *
ZU = "src/zmq/include/zmq/ZmqUtils.hpp"
MM = CORE + "MdpMessage.hpp"
BR = MAJ + "Broker.hpp"
WO = MAJ + "Worker.hpp"
ZF = ["../shim/zmqfake.cpp"]
NET = "libzmq is replaced by an in-memory implementation of its documented socket semantics (shim/zmqfake.cpp) on which the repository's own broker, worker and client tests pass"
prop("C38", "MDP messages cross the wire intact, malformed ones are dropped whole",
     "A Majordomo message sent over any socket pair arrives with every field unchanged, whatever bytes it contains, exactly once. A message with a wrong number of frames, an invalid command or an unusable topic is dropped as a whole without an exception, and the next message is received correctly. Every frame body is released exactly once, whatever sequence of moves, swaps, successful and failed sends and receives it went through, and no frame reports content that it does not hold.",
     ["inputs", "histories"], "all commands x all pairs of fields with unusual contents x topics over three socket pairs; all frame counts, all command bytes, all short topic frames; all histories of frame operations up to a depth",
     "tests exchange well-formed messages; ownership of zero-copy frames is invisible without accounting, and the broker and every client depend on surviving malformed input",
     [ZU, MM], [("send/receive", ZU + ":send,receive,ZmqMessage"), ("frame ownership", ZU + ":MessageFrame")],
     harness=[dict(kind="seq", src="mdpmsg.cpp", extra=ZF, flags=["-fno-sanitize=nonnull-attribute"], parts={"C38_round_trip": 8, "C38_frames": 8, "C38_malformed": 4})],
     technique=SEQ, assume=[NET], cov="11 commands x 21 field pairs x 36 contents x 5 topics x 3 socket pairs; 1-20 frames, 256+ command frames, all topic frames <=3 (4) over 11 characters; all histories of 4 (5) of 22 frame operations with reference counts of every body checked, under ASan")
MDPF = ["-fno-sanitize=nonnull-attribute,alignment"]
prop("C39", "Every request reaches one worker of its service, its reply only the asker",
     "A request sent to a registered service is handed, unchanged and with the asking client's identity, to exactly one worker of that service, as soon as one is free: requests of a higher-priority role first, otherwise in order of arrival; a worker gets its next request only after it answered the last one or announced itself again. Each (partial or final) reply goes, unchanged, to the client that asked and to nobody else, unless that client has not asked for longer than the client timeout. A request for an unknown service is answered at once with an error naming it; internal services answer themselves. Nothing is delivered twice, lost or invented, in whatever order clients and workers act.",
     ["histories", "schedules"], "all histories of requests, registrations, replies, partial replies, heartbeats and time steps by two clients and two workers up to a depth, processed one by one and in batches",
     "tests play single fixed dialogues; starvation, double delivery and lost replies need particular orders of events",
     [BR, ZU], [("dispatch", BR + ":dispatch,putMessage,takeNextMessage,workerWaiting"), ("routing", BR + ":processClients,processWorker,receiveMessage,bestMatchingService")],
     harness=[dict(kind="seq", src="broker.cpp", extra=ZF, flags=MDPF, parts={"C39_histories": 8, "C39_concurrent": 8, "C39_rest": 4})],
     technique=SEQ, assume=[NET], cov="all histories of 4 (5) of 16 events from the start and of 3 (4) from four busy situations, all batches of 2+2 (2+2+1) events in which any order consistent with each peer is accepted; all pairs of internal-service requests; all triples of simultaneous REST requests")
prop("C41", "Live workers stay registered and get heartbeats, silent ones get no requests",
     "The broker sends every free worker one heartbeat per heartbeat interval and not more. A free worker heard of within the liveness time is never dropped; one silent for longer gets no further request and is forgotten. A message other than an announcement from a worker the broker does not know is answered with a disconnect, which does not claim that the broker shuts down, so that the worker can announce itself anew; announcing again after that works. At shutdown every registered worker is told so exactly once. No history makes the broker touch a forgotten worker.",
     ["histories", "time"], "all histories of announcements, heartbeats, requests, replies and time steps around the interval and liveness bounds for two workers up to a depth, with and without final shutdown",
     "tests wait for one heartbeat in real time; expiry, re-announcement and their memory safety need particular histories",
     [BR], [("expiry", BR + ":purgeWorkers,updatedWorkerExpiry"), ("heartbeats", BR + ":sendHeartbeats,processWorker"), ("shutdown", BR + ":cleanup,disconnectWorker,deleteWorker")],
     harness=[dict(kind="seq", src="broker.cpp", extra=ZF, flags=MDPF, parts={"C41_liveness": 16})],
     technique=SEQ, assume=[NET], cov="all histories of 5 (6) of 9 events over virtual time, both ways to shut down")
prop("C40", "A notification reaches each matching subscription once and nobody else",
     "Whatever clients subscribed and cancelled before, over publish/subscribe sockets, as MDP clients or through the REST server, a notification by a worker is delivered, unchanged, exactly once to every current subscription whose topic matches it and to nobody else; a cancellation or repeated subscription by one client never affects another one; the workers are asked to publish exactly the topics that somebody is subscribed to at that time. Subscribers of /mmi.service are told when a worker announces itself.",
     ["histories"], "all histories of subscribe, cancel, close and announce operations by two SUB sockets, two MDP clients and the REST server over up to five topics, with five notifications published after every step",
     "tests subscribe once and publish; lost, duplicated or leaked subscriptions need several clients and repeated or unmatched cancellations",
     [BR, MAJ + "SubscriptionMatcher.hpp"], [("subscription book-keeping", BR + ":subscribe,unsubscribe,receivePubMessage,handleRestMessage"), ("delivery", BR + ":dispatchMessageToMatchingSubscribers")],
     harness=[dict(kind="seq", src="pubsub.cpp", extra=ZF, flags=MDPF, parts={"C40_one_topic": 12, "C40_crowd": 6, "C40_two_topics": 11, "C40_many_topics": 8})],
     technique=SEQ, assume=[NET], cov="all histories of 4 (5) of 12 operations on one topic, of 3 (4) with everybody subscribed before, 3 (4) of 22 on two, 2 (3) of 52 on five topics, 5 notifications after each step; every delivery and every (un)subscription seen by the worker compared with the reference model")
prop("C42", "No message from one peer stops the broker serving the others",
     "Whatever a client, worker or subscriber sends to the broker (any command in either protocol, any service name, topic, body or role token, any number of frames, any subscription), no exception leaves the broker's message loop, it neither crashes nor touches released memory, and afterwards other clients' requests still reach their workers, replies reach them, their subscriptions deliver exactly once and the internal services answer. No client can make the broker send its workers anything but requests.",
     ["inputs", "histories"], "all messages over alphabets of commands, services, topics, bodies and tokens, all pairs of them with time steps in between, all frame counts and odd subscriptions, each followed by a complete health probe",
     "tests only send well-formed messages of cooperating peers; a broker open to a network must survive everything else",
     [BR, ZU, MM], [("message loop", BR + ":processMessages,receiveMessage,receivePubMessage,processWorker,processClients"), ("internal services", BR + ":addInternalService,findDnsEntry")],
     harness=[dict(kind="seq", src="robust.cpp", extra=ZF, flags=MDPF, parts={"C42_one_message": 6, "C42_two_messages": 12, "C42_frames": 6})],
     technique=SEQ, assume=[NET], cov="12 commands x 10 services x (10 topics + 13 bodies + 5 tokens) x 2 protocols x 2 sockets; all pairs of 192 (960) messages with and without time passing; all pairs (triples) of 0-11 frames and 12 odd subscriptions")
prop("C43", "A worker answers every request once, if its role permits, and stays connected",
     "A running worker answers each request it receives exactly once, with the request's own identifiers; the handler runs exactly once if the role of the request's token permits the operation and never otherwise, and a denied request or a handler that throws anything yields an error reply without stopping the worker. It announces itself when it connects, sends one heartbeat per interval, reconnects after a disconnect or when the broker is silent for the liveness time and not before, ends with a good-bye when told to shut down, and forwards a notification exactly once if it matches a topic somebody is subscribed to at that time, otherwise not at all. Malformed messages and topics do not stop it.",
     ["histories", "inputs", "time"], "all histories of requests, broker messages, subscriptions, notifications and time steps up to a depth on the real run() loop; all role tokens of an alphabet for GET and SET; all idle histories of time steps",
     "tests run a worker thread in real time through one dialogue; access control must hold for every token and availability for every order of events",
     [WO, MAJ + "Rbac.hpp"], [("loop", WO + ":run,handleDealerMessage,connectToBroker"), ("access control and errors", WO + ":processRequest"), ("notifications", WO + ":receiveNotificationMessage,receiveSubscriptionMessage,notify")],
     harness=[dict(kind="seq", src="worker.cpp", extra=ZF, flags=MDPF, parts={"C43_histories": 16, "C43_idle": 8}),
              dict(kind="mc", src="worker_mt.cpp", extra=ZF, flags=["-DZMQFAKE_THREADS"])],
     technique=SEQ + "; " + MC, assume=[NET], cov="all histories of 4 (5) of 16 events over virtual time; all 3^9 (3^13) idle histories; 20 tokens x 2 operations; all interleavings with 1 (2) preemptions of 1-2 notifying threads with the worker thread, including handler clean-up")
CL = "src/client/include/Client.hpp"
CX = "src/client/include/ClientContext.hpp"
prop("C44", "Client callbacks get exactly their own replies and notifications",
     "Each GET or SET a user issues through the client library, from any thread, is sent exactly once and unchanged, and its callback is called exactly once, with the reply to that very request, however replies, repeated or unexpected messages, notifications and further requests interleave. A notification on a subscribed topic calls the callback given with the latest subscription to that topic at that broker, exactly once and in order; after a cancellation it is not called. Requests that cannot be carried out are reported to their callback or caller and, like malformed messages from the server, do not stop the client. Clients can be started, used by several threads and stopped at any time without losing requests, data races or use of freed memory.",
     ["histories", "schedules"], "all histories of requests, subscriptions, cancellations, replies in any order, repeated, foreign and malformed messages up to a depth on the real poll thread; all interleavings up to a preemption bound of user threads, dispatcher and poll thread",
     "tests issue one request and one subscription in real time; mixed-up callbacks and races between user and poll thread need particular histories and schedules",
     [CL, CX, ZU], [("request book-keeping", CL + ":MDClientCtx::request,poll,handleRequests"), ("connections", CL + ":Client,SubscriptionClient"), ("dispatch", CX + ":ClientContext::poll,queueCommand,stop")],
     harness=[dict(kind="mc", src="client.cpp", extra=ZF, flags=["-DZMQFAKE_THREADS"])],
     technique=MC, assume=[NET], cov="all histories of 4 of 17 operations, of 4 replies to 2 requests, of 6 subscription operations over two brokers; all pairs of 28 bad requests; concurrent user, dispatcher and poll threads with 1 (2) preemptions")
prop("C45", "Typed services decode, run and answer in the requested format, or report",
     "A typed worker hands its handler exactly the context given in the request's query and the input encoded in the body, in whichever supported format the request asks for, runs it once, and replies with its output in that format (or the one the handler chose) and its reply context in the topic; notifications carry output and context likewise. A request with an unsupported format, an unusable context or a malformed body, whatever its bytes, is answered with exactly one reply, with an error unless the handler ran; it neither crashes the worker nor affects the next request.",
     ["inputs"], "all combinations of content types, inputs, contexts, operations and reply types; all truncations (single and repeated) and all single-byte corruptions of encoded bodies in three formats; malformed query parameters",
     "tests send one well-formed request per format; a service open to clients has to survive every body",
     [WO, SER + "IoSerialiser.hpp", SER + "QuerySerialiser.hpp"], [("typed handler", WO + ":HandlerImpl,deserialiseRequest,writeResultFull,writeResult")],
     harness=[dict(kind="seq", src="typed.cpp", extra=ZF, flags=MDPF, parts={"C45_corrupted": 12, "C45_truncated": 4, "C45_content_types": 8, "C45_bad_contexts": 1, "C45_notifications": 1})],
     technique=SEQ, assume=[NET], cov="2304 combinations of 6 content types, 4 inputs, contexts and reply types; every truncation and 9 (256) values for every byte of 6 encoded bodies, each followed by a valid request, under ASan and UBSan; 20 odd queries")
prop("C48", "The broker directory lists exactly the live brokers and finds their addresses",
     "Asked without a query, /mmi.dns lists every broker that registered with it, by name, with exactly the addresses it registered, and this broker with each of its own addresses, alone and combined with each of its services. A registration stays listed at least until the time to live after its last renewal has passed, disappears within one DNS interval after that, and its owner is challenged once per DNS interval to renew it; the broker's own entry never expires, and a running broker that uses it as its directory stays listed with all its addresses. A list of queries is answered query by query, in order, with exactly the listed addresses that have the query's scheme (in any case), if it names one, and whose path starts with the query's path, or with null; announcements that carry no absolute address are ignored.",
     ["histories", "inputs", "time"], "all histories of registrations by two brokers, binds, service announcements and time steps around the DNS interval and time to live up to a depth, with the complete directory and two look-ups compared after every step; all look-ups over alphabets of registered addresses and queries",
     "tests register once and ask immediately; expiry, renewal and partial matches need histories over time that no test waits for",
     [BR], [("directory", BR + ":findDnsEntry,addInternalService"), ("registration and expiry", BR + ":receiveMessage,purgeDnsServices,registerWithDnsServices,registerNewService,sendDnsHeartbeats,registerDnsAddress")],
     harness=[dict(kind="seq", src="dns.cpp", extra=ZF, flags=MDPF, parts={"C48_histories": 10, "C48_queries": 8, "C48_two_brokers": 6})],
     technique=SEQ, assume=[NET], cov="all histories of 4 (5) of 10 events over virtual time with full comparison of the directory after each; all histories of 4 (5) of 6 events of a second broker using the first as its directory; all pairs (triples) of 7 registered addresses x single queries (and with 4 (all) second ones) over 5 schemes x 8 paths x 3 paddings")
RS = MAJ + "RestServer.hpp"
RU = "src/rest/include/rest/RestUtils.hpp"
RF = ["../shim/nghttp2/nghttp2fake.cpp"]
RL = ["-lssl", "-lcrypto"]
H2 = "libnghttp2 is replaced by an in-memory server session with the same callbacks (shim/nghttp2) and socket calls by recording stand-ins; TLS and HTTP/3 are not exercised"
prop("C49", "HTTP/2 connections carry every byte in order, however the socket splits them",
     "However a client's socket splits, delays or temporarily refuses data, every request sent over an HTTP/2 connection reaches the REST server whole and every response reaches the client whole, in order and unaltered; a socket that cannot take more data now loses nothing and does not end the connection, nor does it affect other connections. A connection that the peer closed or that broke is dropped and its socket closed once, whatever was pending.",
     ["inputs", "schedules"], "all patterns of full, partial and refused writes up to a depth for bodies around the buffer sizes; all splittings of the incoming bytes at frame and buffer boundaries in up to three pieces, followed by a close, an error or nothing",
     "tests talk over the loopback device, which practically never splits or refuses data",
     [RS, RU], [("writing", RU + ":WriteBuffer"), ("reading", RS + ":processReadWrite,Http2Session")],
     harness=[dict(kind="seq", src="rest.cpp", extra=RF, flags=MDPF, ldflags=RL, parts={"C49_write": 12, "C49_read": 8})],
     technique=SEQ, assume=[H2], cov="8 body sizes x 3 kinds of body x 3 frame sizes x all patterns of 4 (6) full, refused, one-byte and half writes x 1-2 responses; 8 stream lengths x all pairs of 17 cuts x 3 endings x 3 left-over errno values")
prop("C50", "Each REST request reaches the broker once and gets its own answer",
     "Each complete request for a service, on whichever connection and however requests, uploads, cancellations and replies interleave, is handed to the broker exactly once, with its own method, path, parameters, body and requested format, and not before its upload is complete. The answer of the service, whenever it comes, is sent exactly once, unaltered, on the stream that asked and on no other; an answer nobody waits for any more is dropped without harm. A request that is no request for a service is answered with an error and reaches nobody.",
     ["histories", "inputs"], "all histories of requests, parts of uploads, cancellations, replies, errors and repeated replies on two connections up to a depth; all combinations of content-type, accept and query formats",
     "tests issue one request after the other from a well-behaved client",
     [RS], [("requests", RS + ":SessionBase,getMessages,processCompletedRequest"), ("answers", RS + ":handleResponse,sendResponse,Http2Session")],
     harness=[dict(kind="seq", src="rest.cpp", extra=RF, flags=MDPF, ldflags=RL, parts={"C50_histories": 12, "C50_formats": 4})],
     technique=SEQ, assume=[H2], cov="all histories of 3 (4) of 13 events from three situations; 9x9x9 formats")
prop("C51", "Long polling delivers each notification by index, once it exists",
     "The first long-poll of a topic subscribes to it, exactly once. From then on a poll for index n of that topic is answered with exactly the n-th notification since then: at once if it is still kept (the last 100 are), as soon as it arrives if it lies in the future, and by a redirect to the next one if it is gone; Next and Last redirect to the next and the latest index. Cancelled polls, closed connections, malformed indices and polls of other topics change nothing of that.",
     ["histories"], "all histories of polls by two clients, notifications, cancellations and disconnects over two topics up to a depth; all pairs of polls around the ends of the kept range for numbers of notifications around its capacity",
     "tests follow one topic with one client; the index arithmetic only shows around the capacity and with several waiting polls",
     [RS], [("index cache", RS + ":SubscriptionCacheEntry,processLongPollRequest,handleNotification"), ("waiting polls", RS + ":_pendingPolls,stream_closed_callback")],
     harness=[dict(kind="seq", src="rest.cpp", extra=RF, flags=MDPF, ldflags=RL, parts={"C51_histories": 12, "C51_capacity": 4})],
     technique=SEQ, assume=[H2], cov="all histories of 4 (5) of 16 events; 10 numbers of notifications x all pairs of 11 polls with notifications in between")
RH = MAJ + "Rest.hpp"
prop("C52", "REST handlers get their requests; file handlers serve only their own files",
     "A request is handled by the registered handler of its method with exactly its path, otherwise by the one with the longest matching wildcard, otherwise it goes to the services. A file handler answers a request for any regular file below its root, whatever its size, with exactly that file's content, length and type and the configured extra headers, also for simultaneous requests; a request for anything else, whatever the path, is refused without disclosing anything outside the root. A handler that fails is answered with an error and affects no other request.",
     ["inputs"], "all paths up to a length over an alphabet of names, dots and empty segments for three mappings and three memory-mapping thresholds; all triples of handlers over an alphabet of paths; all positions of failing handlers",
     "tests fetch a few existing files; containment must hold for every path a client can send",
     [RH, RS], [("files", RH + ":fileSystemHandler,MappedFile"), ("routing", RS + ":SharedData::findHandler,processCompletedRequest")],
     harness=[dict(kind="seq", src="rest.cpp", extra=RF, flags=MDPF, ldflags=RL, parts={"C52_files": 12, "C52_routing": 4, "C52_handlers": 1})],
     technique=SEQ, assume=[H2], cov="all paths of 1-3 (5) of 15 segments x 3 mappings x 3 thresholds, each requested twice at once; all triples of 8 handler paths and 2 methods x 16 requests; 4 kinds of failing handlers in 3 positions; files are created in and removed with a scratch directory")
RC = "src/client/include/RestClientNative.hpp"
prop("C53", "REST client callbacks get exactly their own answers and notifications",
     "Each GET or SET issued through the REST client reaches the server once and unaltered, and its callback is called exactly once, with the answer to that very request, or with an error if the request cannot be carried out: unusable endpoint, refused, closed or broken connection, reset or unusable answer. None of these affects other requests or stops the client. A subscription polls index by index, each notification is delivered exactly once and in order to every callback of its topic, server time-outs and redirects are followed; after a cancellation nothing is delivered any more and the topic can be subscribed again.",
     ["histories", "inputs"], "all histories of requests, all kinds of answers in any order, lost and refused connections up to a depth; all histories of subscriptions, cancellations, redirects, notifications, time-outs and lost connections over two topics up to a depth; all pairs of body sizes over sockets that take little at a time",
     "tests use a well-behaved local server; lost callbacks (callers that wait for ever) only show with failures at particular points",
     [RC, "src/rest/include/rest/RestUtils.hpp"], [("requests", RC + ":ClientSessionBase,Http2ClientSession,RestClient"), ("subscriptions", RC + ":startSubscription,stopSubscription,handleSubscriptionResponse,sendLongPollRequests")],
     harness=[dict(kind="seq", src="restclient.cpp", extra=RF, flags=MDPF, ldflags=RL, parts={"C53_requests": 10, "C53_transfers": 4, "C53_subscriptions": 8})],
     technique=SEQ, assume=[H2, "the client's worker thread runs only while the harness waits for it; interleavings of its queue with user threads are not explored"], cov="all histories of 3 (4) of 12 events from three situations, immediate and delayed connections; all histories of 4 (5) of 10 subscription events from three situations; 7x7 body sizes x 3 socket and 2 frame sizes x 3 arrival patterns")
