from props import *
RB = DISD + "RingBuffer.hpp"
CS = DISD + "ClaimStrategy.hpp"
SQ = DISD + "Sequence.hpp"
PSB = DISD + "ProcessingSequenceBarrier.hpp"
WS = DISD + "WaitStrategy.hpp"
BEP = DISD + "BatchEventProcessor.hpp"
WP = DISD + "WorkProcessor.hpp"
POOL = DISD + "WorkerPool.hpp"
DISR = DISD + "Disruptor.hpp"

prop("C12", "Single-producer ring: every consumer gets every event once, in order, intact",
     "With one producer and any number of registered (gating) consumers, in every interleaving each consumer receives every published event exactly once, in sequence order, with the complete content the producer wrote; a slot is never handed to the producer again before all registered consumers are done with it, a claimed slot is never visible before it is published, and producer and consumers always make progress when the other side does. This holds for single, batch, try and callback publishing (also if the callback throws), whatever the number of outstanding claims.",
     ["schedules"], "all interleavings up to the preemption bound of one producer with 1-2 polling or waiting consumers on rings of 2-4 slots that wrap around, every way of publishing",
     "the unit tests publish and poll from one thread; overwriting an unread slot or exposing an unwritten one needs a consumer that is slow at a particular moment",
     [RB, CS, SQ], [("wrap-around check against the slowest consumer", CS + ":SingleThreadedStrategy::next,tryNext"), ("publication through the cursor", CS + ":SingleThreadedStrategy::publish"), ("polling", RB + ":EventPoller::poll"), ("slowest consumer", SQ + ":getMinimumSequence")],
     harness=[dict(kind="mc", src="ring.cpp")], technique=MC, assume=MC_ASSUME,
     cov="every schedule (preemption bound 3-4 quick, 4-6 thorough) of producer x 1-2 consumers (independent or chained, polling or waiting on a barrier), 3-8 events on 2-4 slots, next/batch/try/callback/throwing callback; event order, content, completeness, claim order, race freedom, termination")
prop("C13", "Multi-producer ring: no event lost, duplicated, torn or overtaken",
     "With several producers publishing concurrently, every claimed sequence number belongs to exactly one producer, each producer's numbers increase, and every registered consumer receives all published events exactly once in sequence order with the content its producer wrote, never an event whose producer has claimed but not yet published it, whatever the order in which producers publish. Slots are not reused before all registered consumers are done, and claims that fit always succeed eventually.",
     ["schedules"], "all interleavings up to the preemption bound of 1-3 producers with 1-2 consumers on rings of 2-4 slots",
     "the multi-threaded unit test samples a few schedules of one machine and cannot produce a producer that stalls between claim and publish",
     [RB, CS, SQ], [("claim by compare-and-set on the cursor", CS + ":MultiThreadedStrategy::next,tryNext"), ("per-slot availability flags", CS + ":setAvailable,isAvailable,getHighestPublishedSequence")],
     harness=[dict(kind="mc", src="ring.cpp")], technique=MC, assume=MC_ASSUME,
     cov="every schedule (preemption bound 2-4 quick, 3-6 thorough) of 1-3 producers x 1-2 consumers (polling or waiting on a barrier), single/batch/try/callback claims, wrap-around; uniqueness of claims, consumer view equal to the claims, race freedom, termination")
prop("C14", "Waiting consumers wake up exactly when they should, with every wait strategy",
     "For each wait strategy, a consumer waiting on a barrier for a sequence always returns once that event is published (and the consumers it depends on are done with it) and never earlier, also when the publish happens at the very moment it starts waiting; all waiting consumers are woken. An alert, whenever it is raised, makes the wait end with an alert exception and stays until it is cleared. The timeout strategy reports a timeout only after its time has passed and an already published event is never reported as timeout. A producer waiting for a full ring never keeps the consumer asleep.",
     ["schedules"], "all interleavings up to the preemption bound of waiters with publisher/alerter, every wait strategy, both claim strategies, virtual clock",
     "a lost wake-up needs the publish to fall between the check and the sleep; tests cannot place it there",
     [WS, PSB], [("condition-variable strategies", WS + ":BlockingWaitStrategy,TimeoutBlockingWaitStrategy"), ("spinning strategies", WS), ("barrier", PSB + ":waitFor,alert")],
     harness=[dict(kind="mc", src="procs.cpp")], technique=MC, assume=MC_ASSUME + ["time is a virtual clock"],
     cov="6 strategies x {publish, out-of-order publish, two waiters, dependency, alert before/during the wait or while waiting for a dependency, back pressure} plus timeouts, all schedules (preemption bound 2-3 quick, 3-5 thorough); deadlock/livelock detection finds lost wake-ups")
prop("C15", "Dependent consumers process each event strictly after those they depend on",
     "In a disruptor assembled from handlers in chains, diamonds or parallel groups, every handler sees every event exactly once in order, a handler placed after others sees an event only after each of them has finished processing it (including their modifications), also if one of them threw, the producer reuses a slot only after the last handlers of all chains are done with it, and an orderly shutdown of running handlers processes everything published before it.",
     ["schedules", "configurations"], "all interleavings up to the preemption bound of producer and handler threads for each topology",
     "tests check final counts; whether a dependent ever overtook its predecessor in some schedule cannot be sampled",
     [DISR, DISD + "EventHandlerGroup.hpp", DISD + "ConsumerRepository.hpp", BEP, PSB], [("barriers over dependency sequences", DISR + ":createEventProcessors"), ("end-of-chain gating", DISD + "ConsumerRepository.hpp:getLastSequenceInChain")],
     harness=[dict(kind="mc", src="procs.cpp")], technique=MC, assume=MC_ASSUME,
     cov="chain, three-stage chain, after(), diamond, And(), fan-out, own processors, processor factories and barriers of groups in every place of a chain with 2-3 handlers, 2-3 events on 2 slots, blocking and spinning waits, throwing handler, shutdown; all schedules (preemption bound 0-2 quick, 1-3 thorough)")
prop("C16", "Worker pool: each event goes to exactly one worker and draining loses none",
     "Every event published to a running worker pool is processed by exactly one of its workers, an exception in one worker neither loses other events nor stops the pool, draining returns only after all events published before it have been processed, and after draining or halting all workers end, each having been told about its start and its end exactly once.",
     ["schedules"], "all interleavings up to the preemption bound of producer and 1-2 workers",
     "double delivery needs two workers racing for one sequence; tests run one schedule",
     [POOL, WP], [("shared work sequence", WP + ":run"), ("drain", POOL + ":drainAndHalt")],
     harness=[dict(kind="mc", src="procs.cpp")], technique=MC, assume=MC_ASSUME,
     cov="1-2 workers, 3 events on 2-4 slots, blocking/spinning, drain/halt/throwing, all schedules (preemption bound 1-2 quick, 2-3 thorough); one worker on a scripted barrier: every script of batches, time-outs, alerts and exceptions")
prop("C17", "Event processors start, survive handler exceptions, stop and restart cleanly",
     "A running event processor reports its start before the first event and its end after the last one exactly once per run, delivers every event exactly once in order, passes each exception of the handler to the exception handler together with the failing event and goes on with the next event, advances its reported position only over events it has processed, ends after halt() whatever it is doing, can be run again afterwards continuing at the next event, and refuses to be run by two threads at once.",
     ["schedules", "fault_sequences"], "all interleavings up to the preemption bound of processor, producer and the thread that halts it; exceptions at each callback",
     "halting while the processor is just starting or going to sleep needs a particular schedule",
     [BEP, WP], [("run loop", BEP + ":run,halt"), ("work processor", WP + ":run,halt")],
     harness=[dict(kind="mc", src="procs.cpp")], technique=MC, assume=MC_ASSUME,
     cov="14 scenarios: life cycle (blocking, spinning, timeout, multi), exceptions at first/middle/last event and in onStart/onShutdown/onTimeout, rerun, halt during start-up (single, workers, group sharing a barrier), concurrent run(); all schedules (preemption bound 2-3 quick, 3-6 thorough); one processor on a scripted barrier: every script of batches, time-outs, alerts and exceptions, checking the end-of-batch flag, the reported position and the time-out position")
prop("C18", "Consumers can join and leave a running ring safely",
     "Registering and unregistering gating consumers while producers and other consumers run never loses or duplicates another registration, never touches freed memory, leaves the joining consumer at a valid position, and from the moment the registration call has returned no producer claim overwrites events the new consumer has not released yet.",
     ["schedules"], "all interleavings up to the preemption bound of producer, existing consumer and a joining/leaving consumer; two concurrent registrations",
     "the consumer list is exchanged while others read it; only particular interleavings hit the window",
     [SQ, RB], [("copy-on-write gating list", SQ + ":addSequences,removeSequence")],
     harness=[dict(kind="mc", src="ring.cpp")], technique=MC, assume=MC_ASSUME + ["a producer that is already blocked in next() keeps waiting for the consumers registered when it was called"],
     cov="join, join+leave against running producer and consumer on both rings, concurrent add/add and add/remove; all schedules (preemption bound 3-4 quick, 4-6 thorough); heap use-after-free and race detection")
prop("C19", "Ring capacity accounting matches the true number of free slots",
     "After any sequence of claims, publications, polls and consumer joins/leaves, the remaining capacity reported equals the buffer size minus the claimed slots not yet released by the slowest registered consumer, 'has capacity for n' and try-claims succeed exactly if n slots are free and otherwise change nothing, claims are consecutive, the published test is true exactly for published sequences, the cursor and the highest contiguous published sequence are the true ones, and polling delivers exactly the contiguous published events (stopping or failing callbacks leave the rest for the next poll) and reports the matching state.",
     ["histories", "schedules"], "all operation sequences up to a depth on a ring of 4 slots, both claim strategies, zero to two consumers, out-of-order publication; interleavings of an observer with producer and consumer",
     "tests walk two or three fixed sequences",
     [RB, CS, SQ], [("capacity computation and its caches", CS + ":hasAvailableCapacity,getRemainingCapacity,tryNext"), ("poll", RB + ":EventPoller::poll")],
     harness=[dict(kind="seq", src="capacity.cpp", suar=False, parts={"C19_single": 8, "C19_multi": 8, "C19_single_free": 2, "C19_multi_free": 2}), dict(kind="mc", src="ring.cpp")], technique=SEQ + "; " + MC, assume=MC_ASSUME,
     cov="all sequences of 7 (quick) / 9 (thorough) operations from {tryNext 1/3/5, next 2, publish oldest/latest, poll all/one/throwing, join/leave, advance}, every observer compared with a counting model after each step; rings without consumers; every schedule of an observer against a moving producer and consumer: the reported capacity lies between the bounds given by the positions before and after")
prop("C23", "Schedulers run each accepted task once; the queue hands over each element once",
     "A blocking queue delivers every pushed element to exactly one consumer, elements of one producer in their order, wakes a waiting consumer for each element, and a timed pop fails only after its time has passed with nothing available. While a scheduler runs, every task given to it (directly or through the executor) is executed exactly once, its future becomes ready only after it has run and carries its exception (the executor swallows exceptions), starting or stopping twice has no effect, a refused start leaves it stopped, and stop() returns with no task running.",
     ["schedules"], "all interleavings up to the preemption bound of 1-2 producers and 1-2 consumers/worker threads, virtual clock",
     "the tests run one schedule and no timing boundary",
     [DISD + "BlockingQueue.hpp", DISD + "BasicExecutor.hpp", DISD + "ThreadPerTaskScheduler.hpp", DISD + "RoundRobinThreadAffinedTaskScheduler.hpp"], [("queue", DISD + "BlockingQueue.hpp"), ("schedulers", DISD + "RoundRobinThreadAffinedTaskScheduler.hpp:workingLoop")],
     harness=[dict(kind="mc", src="sched.cpp")], technique=MC, assume=MC_ASSUME + ["thread pinning is replaced by a stand-in"],
     cov="queue 1-2 producers x 1-2 consumers blocking/timed; both schedulers with 1-3 tasks, 1-2 threads (many: 40 tasks on 1-8 threads, 70 queue elements), throwing tasks, tasks that wait for one another, stop while busy, stop waiting for running tasks, refused start, restart; all schedules (preemption bound 2-5 quick, 3-7 thorough)")
prop("C24", "An aggregate handler behaves like its handlers called one after the other",
     "For every list of handlers, each event, start and shutdown notification given to the aggregate reaches every handler that can take it exactly once, in list order and with unchanged arguments; handlers that are not life-cycle aware are skipped for start/shutdown only, and an exception of a handler reaches the caller. Aggregates can be nested, and later changes of the caller's list have no effect.",
     ["configurations", "histories"], "all handler lists up to 4 (5) entries of each kind, with throwing handlers and repeated entries, all notification sequences up to 5",
     "the unit test uses three handlers of one kind",
     [DISD + "AggregateEventHandler.hpp"], [("forwarding loops", DISD + "AggregateEventHandler.hpp")],
     harness=[dict(kind="seq", src="aggregate.cpp", suar=False)], technique=SEQ,
     cov="all handler lists of 0-4 (quick) / 5 (thorough) plain/life-cycle/repeated handlers x throwing or not x start called or not x end-of-batch flags, flat and nested, call log compared with the expected one; life-cycle calls that throw; up to 1000 handlers and extreme sequence numbers")

TRX = "src/disruptor/include/Transactions.hpp"
prop("C20", "Transactional settings: history, staging and expiry mean what they say",
     "The latest value of a transactional setting is the last one committed; looking back n steps or asking for the value valid at a time stamp gives exactly the n-th last commit resp. the last commit not later than that time, as far as the history reaches, and is refused beyond. Staged values have no effect until their token is committed, are then committed once in the order they were staged, can be withdrawn, and are replaced by staging the same token again. Histories are cut only from the old end, by count (never below the promised length) or because the entry was not used for the time-out; transactions expire after theirs; nothing expires where no time-out is set. A setting multiplexed by timing context returns the value of exactly that context, or of the closest less specific one, and reports which; retiring a context removes exactly the contexts covered; results handed out stay valid and unchanged whatever happens to the setting afterwards.",
     ["histories", "inputs"], "all operation sequences up to a depth over commit/stage/commit-token/withdraw/modify/read/advance-time/expire for plain and context settings, and histories longer than the ring",
     "the tests walk one scripted history with real sleeps",
     [TRX], [("history ring and expiry", TRX + ":SettingBase"), ("contexts", TRX + ":CtxSetting")],
     harness=[dict(kind="mc", src="transactions.cpp")], technique=SEQ, assume=["system clock is virtual and advanced by the harness"],
     cov="every operation sequence up to length 4 (plain) / 3 (contexts, 18 operations) on the real classes, compared with a reference model of history, staging list and context maps after each sequence; heap use-after-free detection")
prop("C21", "Transactional settings are linearisable under concurrent use",
     "With any number of threads committing, modifying, staging, withdrawing and reading a setting at the same time, no committed update is lost or undone by another one, the history is one total order of all commits, each staged value is committed or withdrawn exactly once, readers only ever see committed values that do not go backwards in time and a sensible history length, also while the history is being cut, and no reader blocks or crashes because of expiry.",
     ["schedules"], "all interleavings up to the preemption bound of 2-3 threads committing, staging, reading and expiring, with empty and with completely filled history",
     "the tests are single-threaded",
     [TRX], [("writers", TRX + ":stage,commit,modifySetting,retireExpired"), ("readers", TRX + ":get,nHistory")],
     harness=[dict(kind="mc", src="transactions.cpp")], technique=MC, assume=MC_ASSUME,
     cov="every schedule up to 2-3 preemptions of 15 scenarios incl. history/ring wrap-around; race and use-after-free detection")
