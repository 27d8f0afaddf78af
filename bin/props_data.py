K = "sparta/sparta/kernel/"; E = "sparta/sparta/events/"; S = "sparta/src/"; ST = "sparta/sparta/statistics/"; TR = "sparta/sparta/trigger/"
SIMNOTE = ("Seeded exploration, not proof: every explored run is an exact, replayable execution of the shipped code checked operation by "
           "operation against a small reference model. Trusts the reference model and the plan generator; ")
def define(P):
    P("C01", "Scheduled events fire exactly once, at their tick, in phase order",
      "Every event scheduled on a simulation's scheduler is delivered exactly once, at exactly the tick (current tick plus the delay converted through the event's clock) it was scheduled for, unless it is cancelled first or the scheduler's events are cleared. "
      "Within a tick all events of an earlier scheduling phase are delivered before any event of a later phase, including events scheduled with zero delay from inside handlers, and ticks are delivered in increasing order. "
      "The scheduler's queries (is an event scheduled, next event tick, finished) and its cancel operations always agree with the set of events still waiting to be delivered.",
      ["schedules", "histories", "inputs"], "every sequence of schedule/cancel/query calls from outside and from inside handlers, over every mix of event kinds, phases, clocks and delays",
      "the unit tests use a few fixed event graphs with one or two clocks; they never mix cancels, zero-delay scheduling, several phases and far-future ticks in one history",
      [K + "Scheduler.hpp", S + "Scheduler.cpp", S + "Scheduleable.cpp", E + "Event.hpp"],
      [("tick quantum list, sorted by tick, one vector per firing group", K + "Scheduler.hpp scheduleEvent/run"), ("firing loop restarts at a group that receives events", S + "Scheduler.cpp run")],
      [("current_tick_quantum_", "events of the tick being delivered, per group", K + "Scheduler.hpp")], ["handler invocations", "Scheduler::isScheduled/nextEventTick/isFinished/cancelEvent"],
      "deterministic simulation: seeded histories of scheduling, cancelling and running against a reference event queue", SIMNOTE + "order between unordered events of one phase is left free.")
    P("C02", "Splitting, stopping, rewinding and aborting runs never loses or moves events",
      "Running the simulation for a number of ticks advances time by exactly that amount for an exact run and never beyond it otherwise, fires every event inside the window and none outside it, and leaves later events untouched for the next run, so that the sequence of firings does not depend on how the simulated time is cut into runs. "
      "A stop request ends the run after the tick in which it was made and affects only that run. "
      "After restarting at any tick, clearing events, or an exception escaping from a handler followed by the documented recovery, no event from before is delivered and the scheduler works as a fresh one does at that time.",
      ["schedules", "histories", "crash_points", "fault_sequences"], "every split of simulated time into run calls with every placement of stop requests, throwing handlers, restarts and clears",
      "tests run a simulation once from start to end with one or two fixed splits; a throwing handler, a stop request racing a tick limit or a rewind appear in single fixed places",
      [K + "Scheduler.hpp", S + "Scheduler.cpp"], [("run limit is a stop event at PostTick of the last tick", S + "Scheduler.cpp run"), ("clearEvents/restartAt reset the queue", S + "Scheduler.cpp")],
      [("current_tick_, elapsed_ticks_", "time", K + "Scheduler.hpp")], ["Scheduler::run, getCurrentTick, getElapsedTicks, restartAt, stopRunning"],
      "deterministic simulation: seeded run splits, stop requests, injected handler exceptions and rewinds against a reference event queue", SIMNOTE + "an exception is followed by the recovery the scheduler's documentation asks for.")
    P("C03", "Declared event precedence is honoured for every relation, or rejected if cyclic",
      "If one event is declared to precede another (directly, through a chain, or through a global ordering point), then whenever both are scheduled for the same tick the first is delivered before the second, and scheduling with zero delay from a handler an event that had to come before the running one is refused. "
      "A precedence relation with a cycle, including one that contradicts the phases, is rejected before the simulation starts, and every acyclic one is accepted.",
      ["configurations", "schedules", "inputs"], "every precedence relation over events and ordering points in all phases, and every pattern of scheduling them",
      "tests declare a handful of fixed precedence graphs and look at one firing order",
      [K + "DAG.hpp", S + "DAG.cpp", K + "Vertex.hpp", S + "Vertex.cpp", E + "Precedence.hpp", E + "GlobalOrderingPoint.hpp"], [("topological sort assigns group ids at finalize", S + "DAG.cpp"), ("zero-delay check against the firing group", K + "Scheduler.hpp scheduleEvent")],
      [], ["handler order, exceptions from finalize and scheduleEvent"],
      "deterministic simulation: random precedence relations and zero-delay schedules against a transitive-closure model", SIMNOTE + "bounded to 10 events and 3 ordering points per run.")
    P("C04", "Unique events are delivered once per tick however often they are scheduled",
      "A unique or single-cycle unique event scheduled any number of times for one tick by any number of producers is delivered exactly once in that tick, and never without having been scheduled. "
      "Scheduling in one tick, a cancel, or a restart of the scheduler at any tick never suppresses a delivery that was requested for another tick or requested afterwards.",
      ["schedules", "histories"], "every interleaving of schedule and cancel calls from several producers in the same and adjacent ticks, including tick zero and rewound ticks",
      "tests schedule unique events twice in a fixed order, never around cancels, tick zero or restarts",
      [E + "UniqueEvent.hpp", E + "SingleCycleUniqueEvent.hpp"], [("last scheduled tick markers", E + "SingleCycleUniqueEvent.hpp"), ("scheduled-tick map", E + "UniqueEvent.hpp")],
      [], ["handler invocations"],
      "deterministic simulation: repeated scheduling from several producers with cancels and rewinds against a per-tick set model", SIMNOTE + "single-cycle events are scheduled only on their own clock's edges, as documented.")
    P("C05", "Payload events deliver each payload once, intact; cancels and handles are exact",
      "Every payload given to a payload or global event is delivered exactly once, unchanged, at its tick and phase unless cancelled, whichever combination of direct scheduling, prepared handles and copies or moves of those handles was used. "
      "Cancelling (all, at a relative cycle, by value, by predicate, or through a handle) removes exactly the matching scheduled payloads and reports how many, and queries report exactly what is scheduled. "
      "A payload stays alive while it is scheduled, held by a handle or being delivered, and is released exactly once afterwards.",
      ["schedules", "histories"], "every history of prepare, schedule, cancel, query and handle copy/move/drop operations from outside and inside handlers, with the event or scheduler torn down at any point",
      "tests prepare and cancel a few payloads in fixed order, with payload types that do not notice being copied after destruction or leaked",
      [E + "PayloadEvent.hpp", E + "GlobalEvent.hpp", E + "Scheduleable.hpp", S + "Scheduleable.cpp"], [("proxy pool: inflight and free lists", E + "PayloadEvent.hpp"), ("handle reference counts", E + "ScheduleableHandle (EventNode/Scheduleable)")],
      [], ["payload callbacks", "cancel return values", "isScheduled/confirmIf/getHandleIf", "payload construction and destruction"],
      "deterministic simulation: seeded payload/handle histories with life-counting payloads against a reference model", SIMNOTE + "payload life is tracked by an instrumented payload type.")
    P("C06", "Asynchronous events from other threads are never lost, duplicated or late",
      "An event scheduled through the asynchronous interface by any thread, while the scheduler runs or is stopped, is delivered exactly once, on the simulation thread, in its declared phase, no earlier than its delay after the tick in which the call was made and no later than that delay after the tick during which the call returned plus one tick. "
      "Cancelling it or clearing the scheduler removes exactly the requests made before, a request made concurrently is either delivered or removed, never half of each, and events scheduled by the simulation thread are unaffected by any of it.",
      ["schedules", "histories"], "every interleaving, down to single memory accesses of the scheduler, of threads scheduling asynchronous events with a simulation thread that runs, pauses, cancels and clears",
      "the tests start a few real threads and can only see the interleavings the operating system happens to choose; none cancels or clears concurrently",
      [K + "Scheduler.hpp", S + "Scheduler.cpp", E + "AsyncEvent.hpp"],
      [("async event list under a mutex, drained at the start of each tick", S + "Scheduler.cpp run"), ("lock-free emptiness hint", K + "Scheduler.hpp")],
      [("async_event_list_", "requests not yet in the tick queue", K + "Scheduler.hpp")], ["handler invocations (tick, thread)", "AsyncEvent::schedule/cancel"],
      "deterministic simulation: seeded thread interleavings at memory-access granularity against an interval model", SIMNOTE + "sequentially consistent memory only; synchronous work is assumed to exist, since an idle scheduler does not look for asynchronous events.")
    P("C07", "Watchdogs fire when they must and only then, and never hang the simulator",
      "The background watchdog stops a simulation that has exceeded its wall or CPU budget or has stopped making progress, within one checking interval and with the configured kind of termination, and never interrupts one that is within its budget, paused, or between runs. "
      "The tick watchdog raises its error exactly when more than its limit of ticks passed without being fed. "
      "Pausing, resuming, restarting at another tick, aborting by an exception and destroying the watchdog with or without schedulers never hang, miss a wake-up or use a scheduler that is gone.",
      ["schedules", "histories", "fault_sequences"], "every interleaving of the watchdog thread with run, pause, restart, exception and destruction, and every pattern of clock advance including stalls and slow ticks",
      "the tests wait for one real timeout each and cannot vary when the checking thread wakes relative to runs, pauses and teardown",
      [K + "SleeperThread.hpp", K + "SleeperThreadBase.hpp", K + "Scheduler.hpp"],
      [("condition-variable loop comparing clocks and ticks", K + "SleeperThread.hpp"), ("pause/unpause around runs", S + "Scheduler.cpp run"), ("watchdog expiry check per tick", S + "Scheduler.cpp")],
      [("prev_ticks_", "tick seen at the previous check, per scheduler", K + "SleeperThread.hpp")], ["exceptions and exit codes", "virtual time at which the simulation ends"],
      "deterministic simulation: virtual clocks and a seeded scheduler for the watchdog and simulation threads against a timeout model", SIMNOTE + "the watchdog's own diagnostics print while the simulation thread runs, so runs that hang forever stop checking at the report.")
    P("C09", "Clock domains keep exact rational time against each other",
      "For every tree of clocks, after normalisation each clock's period is exactly its ratio to every other clock with the smallest common tick, and at every moment of a simulation its current cycle, positive edges, cycle counter and elapsed cycles agree with the scheduler's tick. "
      "An event scheduled a number of cycles ahead through any clock fires exactly that many periods later, and a clock crossing always lands on the first edge of the destination not before the requested delays, with the reverse computation consistent with it.",
      ["configurations", "schedules"], "every tree of clock ratios and every pattern of cross-clock scheduling over a whole simulation",
      "tests use a few fixed ratios and short runs",
      ["sparta/sparta/simulation/Clock.hpp", S + "Clock.cpp", "sparta/sparta/simulation/ClockManager.hpp", "sparta/sparta/utils/Rational.hpp"], [("normalisation by lcm of root ratios", "sparta/sparta/simulation/ClockManager.hpp normalize"), ("calculateClockCrossingDelay", "sparta/sparta/simulation/Clock.hpp")],
      [("period_", "ticks per cycle", "sparta/sparta/simulation/Clock.hpp")], ["Clock queries in handlers and between runs", "handler ticks"],
      "deterministic simulation: seeded schedules over random clock trees against exact rational arithmetic", SIMNOTE + "ratios are kept small enough for 32-bit periods.")
    P("C10", "Data and signal ports deliver everything sent exactly once, on time, intact",
      "Data sent on an out port reaches every bound in port exactly once, unchanged, in the in port's declared phase, exactly the send delay plus the port's delay later, in the order sent per connection; with no delay it arrives in the same tick, immediately if sent in the port's own phase, and is refused if that phase is already over. "
      "Consumers registered with a port run after all of that tick's deliveries to it. Cancels remove exactly the matching data in flight and report how many, queries report exactly what is in flight, and the port retains the last data until it is pulled or cleared. Signals to one port due in one tick are delivered once.",
      ["schedules", "histories", "configurations"], "every binding of ports in every phase and delay, and every history of sends, cancels and queries from producers and from port callbacks",
      "tests bind a few ports and check one fixed sequence of sends",
      ["sparta/sparta/ports/DataPort.hpp", "sparta/sparta/ports/SignalPort.hpp", "sparta/sparta/ports/Port.hpp", "sparta/sparta/utils/DataContainer.hpp"], [("send_ schedules or delivers at once", "sparta/sparta/ports/DataPort.hpp"), ("precedence between producers, port and consumers at bind", "sparta/sparta/ports/Port.hpp")],
      [], ["consumer handlers", "isDriven/cancel/cancelIf", "DataContainer queries"],
      "deterministic simulation: seeded send/cancel schedules over random port bindings against an in-flight model", SIMNOTE + "whether the data being delivered still counts as in flight inside its own callback is left open.")
    P("C11", "Synchronised ports lose, duplicate and reorder nothing across clock domains",
      "Data sent on a synchronised out port is delivered to its in port exactly once, in order, at most once per receiver cycle, on the receiver's first edge at or after the send and receive delays (or, when sliding is allowed, the next free edge after it); a send that would collide is refused and leaves no trace. "
      "While the receiver is not ready nothing is delivered, data already sent waits and is delivered once it becomes ready, within a bounded number of cycles, and the sender is told it may send exactly when a send would be accepted.",
      ["schedules", "histories", "configurations"], "every pair of clock ratios, delay, and history of sends, slides and ready toggles in every phase",
      "the test sends fixed command sequences over a handful of frequencies; readiness toggles in one fixed pattern",
      ["sparta/sparta/ports/SyncPort.hpp", "sparta/sparta/simulation/Clock.hpp"], [("arrival computation and slide", "sparta/sparta/ports/SyncPort.hpp computeSendToReceiveTickDelay_"), ("recirculation while not ready", "sparta/sparta/ports/SyncPort.hpp forwardData_")],
      [("prev_data_arrival_tick_", "last claimed receiver edge", "sparta/sparta/ports/SyncPort.hpp"), ("num_in_flight_", "sent, not delivered", "sparta/sparta/ports/SyncPort.hpp")], ["consumer handlers", "isReady/send/setReady"],
      "deterministic simulation: seeded sends, slides and receiver stalls against an exact arrival model", SIMNOTE + "back-pressure is explored with equal clocks and delays of at most one cycle, which the code asserts.")
    R = "sparta/sparta/resources/"
    P("C12", "Pipes and shared data advance exactly one step per cycle",
      "Whatever is appended to, written into, invalidated in or flushed from a pipe, each update moves every valid item one stage on, the appended item enters stage zero and the last stage leaves; a self-updating pipe does so exactly once every cycle and nothing is lost, duplicated or seen in two stages. The number of valid items, validity queries and iteration always agree with the stages, and illegal reads, double appends and invalidations are refused without effect. "
      "Data written to a shared item, however often in a cycle, becomes visible exactly at the next cycle's update with the last value written, never earlier.",
      ["schedules", "histories"], "every history of pipe and shared data operations in every phase of every cycle",
      "tests append and flush in one fixed pattern each",
      [R + "Pipe.hpp", R + "SharedData.hpp", "sparta/sparta/utils/ValidValue.hpp"], [("internalUpdate_ rotates the ring and counts valid stages", R + "Pipe.hpp"), ("writeImpl_/update_", R + "SharedData.hpp")],
      [("num_valid_", "valid stages", R + "Pipe.hpp"), ("current_state_", "present and next state", R + "SharedData.hpp")], ["stage contents, counters and iterators after every operation and every cycle"],
      "deterministic simulation: seeded operation schedules in every phase against a shift-register model", SIMNOTE + "each resource is driven from its own clock's edges.")
    P("C13", "Pipelines call stage handlers exactly for the data that arrives",
      "After every update each active stage that holds data has each of its handlers called exactly once in that cycle, in its phase, with that data, in the declared order, and no handler of an empty, inactive, stalled or flushed stage is called. "
      "A stall holds the stalled stages for exactly the requested cycles (bubbles before it are closed only if asked for), stages behind it drain, nothing is lost or duplicated, flushing the stalling stage or clearing the stall ends it, and stages the user deactivated stay so. Illegal stalls, appends and invalidations are refused without effect.",
      ["schedules", "histories"], "every history of appends, writes, stalls, flushes and activation changes from any phase and from the handlers themselves",
      "tests use fixed pipelines and fixed stall patterns",
      [R + "Pipeline.hpp", R + "Pipe.hpp"], [("internalUpdate_ moves data, then schedules handlers", R + "Pipeline.hpp"), ("drain_/deactivate_/restart_ implement stalls", R + "Pipeline.hpp")],
      [("events_valid_at_stage_", "active stages", R + "Pipeline.hpp"), ("stall_cycles_", "stall cycles left", R + "Pipeline.hpp")], ["stage handler calls", "stage contents and stall queries after every operation"],
      "deterministic simulation: seeded stalls, flushes and handler-made changes against a stage-by-stage model", SIMNOTE + "a pipeline updated by hand is updated at most once per cycle, before its handlers' phases.")
    P("C15", "Scoreboard views see ready and cleared registers exactly on time",
      "A register set ready through a unit becomes ready on the master at once and in each view exactly the forwarding latency of that pair of units later, immediately for latency zero and never where no forwarding is configured; a cleared register is not ready anywhere until it is set again, even if updates were still on their way. "
      "A callback waiting for registers is called exactly once, as soon as an update makes all of them ready in its view, never before and never after it was cleared, also if callbacks set, clear or register more.",
      ["schedules", "histories", "configurations"], "every latency matrix, number of views and history of sets, clears and callbacks, including ones made by callbacks",
      "tests use one matrix and never change the scoreboard from a callback or while updates are in flight",
      [R + "Scoreboard.hpp", "sparta/src/Scoreboard.cpp"], [("set schedules delayed updates", "sparta/src/Scoreboard.cpp Scoreboard::set"), ("receiveScoreboardUpdate_ runs ready callbacks", "sparta/src/Scoreboard.cpp")],
      [("local_ready_mask_", "registers ready in a view", R + "Scoreboard.hpp"), ("ready_callbacks_", "waiting callbacks", R + "Scoreboard.hpp")], ["isSet on master and views", "callback calls"],
      "deterministic simulation: seeded sets, clears and re-entrant callbacks against a readiness model with in-flight updates", SIMNOTE + "the scoreboard is driven in the phases after Update.")
    P("C14", "Containers hold exactly what was put in, in order, under any history",
      "After any history of insertions, removals, overwrites, growth, moves and clears, a queue, buffer, array, circular buffer or priority queue holds exactly the entries a plain sequence would hold, in the order (or age, or priority) the operations imply, through every access path: indexes, iteration in both directions, first and last, free counts. "
      "Overflow, underflow and use of entries that are gone are refused without effect (a circular buffer overwrites its oldest instead), an iterator stays on its entry as long as the container documents, an element whose copy fails leaves the container as it was, every element is destroyed exactly once, and the utilization counters hold the cycles spent at each occupancy.",
      ["histories", "fault_sequences"], "every operation history, capacity, held iterator and failing element copy",
      "tests run short fixed sequences with integers and never let a copy fail",
      [R + "Queue.hpp", R + "Buffer.hpp", R + "Array.hpp", R + "FrontArray.hpp", R + "CircularBuffer.hpp", R + "PriorityQueue.hpp", "sparta/sparta/utils/FastList.hpp"], [("push/erase/insert", R + "Buffer.hpp insertImpl_"), ("circular indexes", R + "Queue.hpp"), ("age list", R + "Array.hpp writeImpl_"), ("window indexes", R + "CircularBuffer.hpp insertEntry_")],
      [("buffer_map_/free_position_", "slots of the entries", R + "Buffer.hpp"), ("valid_index_set_/aged_list_", "entries and their age", R + "Array.hpp")], ["contents by every access path, held iterators and utilization counters after every operation"],
      "deterministic simulation: seeded operation histories with failing copies against sequence models", SIMNOTE + "buffer iterators end when the buffer grows or is moved.")
    CP = "sparta/sparta/serialization/checkpoint/"; A = "sparta/sparta/functional/"
    P("C16", "Loading a checkpoint restores exactly the state and tick it was taken at",
      "Loading any existing checkpoint, in any order and on any branch, restores the content of every checkpointed object (registers, memories, flat architectural data, checkpointable objects) byte for byte as it was when the checkpoint was created, and the simulation's tick, no matter how the content was written, whether the checkpoint is a snapshot or a delta, and what was created, loaded, deleted, forgotten, squashed, reset or failed for lack of memory before. "
      "The listings, chains, counts and searches of the checkpointer agree with the history of operations, a deleted checkpoint no longer exists for the user, the head cannot be deleted, and squashing hands exactly the chain it documents to the disk.",
      ["histories", "fault_sequences"], "every history of writes by every access path, resets, checkpoints, loads, deletions, squashes and failing allocations, and every snapshot threshold",
      "tests create a fixed chain with two branches and check one register and one memory block; resets, DMI writes, failing allocations and most delete orders never appear",
      [CP + "FastCheckpointer.hpp", CP + "DeltaCheckpoint.hpp", CP + "VectorStorage.hpp", CP + "Checkpointer.hpp", CP + "Checkpoint.hpp", A + "ArchData.hpp", CP + "Checkpointable.hpp"],
      [("a delta stores the dirty lines; loading replays deltas from the last snapshot", CP + "DeltaCheckpoint.hpp load"), ("dead checkpoints are freed once nothing depends on them", CP + "FastCheckpointer.hpp cleanupChain_"), ("dirty flags of lines", A + "ArchData.hpp Line")],
      [("chkpts_, current_, head_", "the tree of checkpoints", CP + "FastCheckpointer.hpp"), ("dirty_", "line written since the last checkpoint", A + "ArchData.hpp")], ["content of every object after loads", "getCheckpoints, chains, counts, current, head", "scheduler tick"],
      "deterministic simulation: seeded checkpoint histories with failing allocations against a byte-map model of every checkpointed object", SIMNOTE + "squashing only while no deleted checkpoint lingers; one listed finding about checkpointable objects in delta checkpoints.")
    P("C17", "A saved checkpoint restores the same state anywhere, or a failure is reported",
      "A checkpoint saved to a stream or C file and restored, in the same process or in another one with an identical tree, reproduces the content of every checkpointed object byte for byte, and checkpoints taken after a restore are as good as any others. "
      "If the output refuses a single byte the save fails visibly, a truncated or damaged checkpoint is refused instead of being restored in part silently, and an intact one can be restored after that. "
      "The streams over C files deliver every byte exactly once and in order in both directions, whatever sizes are read and written and whatever the file refuses for a while.",
      ["histories", "fault_sequences", "inputs"], "every content, every point at which the output fills up or the input ends, short reads, failing and retried flushes",
      "tests save and restore once through a working pipe or file",
      [CP + "PersistentFastCheckpointer.hpp", CP + "FILEStream.hpp", CP + "FastCheckpointer.hpp", A + "ArchData.hpp"],
      [("save_ writes L/E framed lines and throws on write failure", CP + "PersistentFastCheckpointer.hpp"), ("overflow/sync/underflow", CP + "FILEStream.hpp")],
      [("buf_", "characters not yet written or read", CP + "FILEStream.hpp")], ["content after a restore", "bytes on the simulated device", "exceptions and stream states"],
      "deterministic simulation: seeded save and restore histories over simulated devices that fill up, fail, read short or were truncated, against byte models", SIMNOTE + "damage is judged where the format has a control character or an end.")
    M = "sparta/sparta/memory/"; FN = "sparta/sparta/functional/"
    P("C18", "Every view of memory gives the bytes last stored, or refuses without effect",
      "Memory objects, memory maps, direct memory windows, blocking interfaces and per-core cached memories all give, for every byte, the value last stored to it through any of them, the fill value where nothing was stored, and translate addresses as mapped. "
      "A core with a cached memory sees its own stores in program order at once, other cores see them when they are committed, and a dropped store leaves no trace anywhere. "
      "An access that leaves its window, hits a hole, crosses a block, uses an invalidated window or runs out of memory is refused and changes neither memory nor the caller's data; observers are told about each completed access once with its true data.",
      ["histories", "schedules", "inputs", "fault_sequences"], "every interleaving of loads, stores, commits, drops, pokes, direct accesses and invalidations by several cores over every memory layout and address up to the end of the address space",
      "tests use one core or two with a fixed script on small aligned addresses; holes, wrap-around, huge objects, observers and direct windows are never mixed with outstanding stores",
      [M + "MemoryObject.hpp", M + "CachedMemory.hpp", M + "SimpleMemoryMap.hpp", M + "SimpleMemoryMapNode.hpp", M + "BlockingMemoryIF.hpp", M + "BlockingMemoryIFNode.hpp", M + "DMIBlockingMemoryIF.hpp", M + "DebugMemoryIF.hpp", A + "ArchData.hpp"],
      [("outstanding stores replayed over the line on a fill or merge", M + "CachedMemory.hpp"), ("binary tree over sorted mappings", M + "SimpleMemoryMap.hpp"), ("window and block checks before every access", M + "DebugMemoryIF.hpp")],
      [("outstanding_writes_", "stores not yet committed", M + "CachedMemory.hpp")], ["bytes read and peeked through every interface", "refusals", "access notifications"],
      "deterministic simulation: seeded interleavings of several cores and debug/DMI accessors with refused accesses, invalidations, dropped stores and failing allocations, against byte-array models of memory and of each core's view", SIMNOTE + "zero-sized accesses and pokes into a core's own outstanding stores are left out.")
    P("C19", "Registers change only where an access may write, and show it to every view",
      "Each register, read through any path (buffer, typed, field, subset register, bank, proxy, name or alias), gives the value last written; a masked write changes exactly the writable bits of the bytes it covers, an unmasked one exactly the bytes it covers, and nothing else in the set changes. "
      "Reset restores initial values; bank, group, proxy and name lookups find exactly the register defined for the current bank. "
      "An access outside the register or a value too large for its field is refused without effect; each observed access posts one notification carrying its true prior and final value, and an observer that writes other registers or fails disturbs nothing else. Bit operations on register values equal arithmetic on the bits.",
      ["histories", "inputs", "fault_sequences", "configurations"], "every register file layout and access history, with observers that re-enter or fail in the middle of an access",
      "tests use a fixed set of registers and mostly aligned, full-width accesses with passive observers",
      [FN + "Register.hpp", FN + "RegisterDefinitionSet.hpp", FN + "RegisterSet.hpp", FN + "RegisterBits.hpp", FN + "RegisterBankTable.hpp", FN + "DataView.hpp", A + "ArchData.hpp"],
      [("write masks computed from read-only fields", FN + "Register.hpp"), ("bank table lookups", FN + "RegisterSet.hpp"), ("multi-word shifts", FN + "RegisterBits.hpp")],
      [("mask_", "writable bits", FN + "Register.hpp")], ["register and field values", "notifications", "refusals", "lookups"],
      "deterministic simulation: seeded access histories with re-entrant and failing observers and refused accesses, against byte models of every register", SIMNOTE + "shifts by the full width or more and direct accesses outside the register are left out; this part has no concurrency or time of its own, so histories and observer faults are what is explored.")
    P("C20", "Statistics and reports show what was counted in their window",
      "A counter holds exactly the sum of what was added to it, a cycle counter the cycles it was counting, weighted by its multiplier, up to the present cycle; every value or cycle a histogram was given is in exactly one of its bins, its underflow or its overflow, so the bins add up to the total, and its derived statistics equal the same arithmetic on the bins. "
      "A statistic instance gives the value accumulated since its start, whatever else runs on the same counters; once ended it keeps that value until it is started again, also when the counter goes away. "
      "Copies and moves of instances and reports keep their windows, values, names and lookups and are independent of their source. "
      "An expression over counters and statistics equals the same arithmetic on their values.",
      ["schedules", "histories", "inputs", "configurations"], "every history of counting, windows opened and closed at any tick, and report copies, moves and edits, over all kinds of counter, histogram and generated expressions",
      "tests read a handful of fixed expressions once, at fixed ticks, and never copy, move or assign reports whose windows are open",
      [ST + "CounterBase.hpp", ST + "CycleCounter.hpp", ST + "Histogram.hpp", ST + "CycleHistogram.hpp", ST + "StatisticInstance.hpp", ST + "StatisticDef.hpp", ST + "Expression.hpp", "sparta/sparta/report/Report.hpp", S + "StatisticInstance.cpp", S + "Report.cpp"],
      [("initial value subtracted per instance", S + "StatisticInstance.cpp"), ("bin of a value by shift", ST + "Histogram.hpp"), ("result cached at the end of a window", S + "StatisticInstance.cpp end")],
      [("initial_", "value at the start of a window", ST + "StatisticInstance.hpp"), ("start_count_on_", "cycle a cycle counter counts from", ST + "CycleCounter.hpp")],
      ["counter and bin values", "instance values, ranges and initial values", "report entries and lookups", "refusals"],
      "deterministic simulation: seeded worlds of clocks, counters, histograms, expressions, instances and reports driven from event handlers at every phase, and teardown under open windows, against a reference evaluator", SIMNOTE + "windows that straddle a scheduler restart are left out.")
    P("C21", "Triggers fire exactly when their condition is met, once per arming",
      "A counter, statistic or context counter trigger fires in the trigger phase, before the events of the tick, within one period of its clock after its condition has come to hold while it is armed, and never otherwise; a cycle or time trigger fires exactly at its cycle or time. "
      "It fires once per arming; deactivating, setting again, moving its point, copying, assigning or destroying triggers, from inside any callback or outside, before or during the run, affects those triggers only. "
      "A start/stop/repeat trigger starts its objects once, repeats at its period while it is running, stops once, and stops repeating when told to.",
      ["schedules", "histories", "inputs", "configurations"], "every history of counting, arming, disarming, copying and destroying triggers of all kinds, from devices in any phase, callbacks and between runs, on any clocks",
      "tests arm a few triggers on one counter and let them fire; none touches triggers from inside callbacks, and none re-uses a clock address in a second simulation",
      [TR + "SingleTrigger.hpp", TR + "ManagedTrigger.hpp", TR + "TriggerManager.hpp", TR + "Trigger.hpp", TR + "StatisticDefTrigger.hpp", TR + "ContextCounterTrigger.hpp", S + "Trigger.cpp", S + "ContextCounterTrigger.cpp"],
      [("one handler per clock checks its triggers every cycle", TR + "TriggerManager.hpp"), ("changes during a tick are deferred", TR + "TriggerManager.hpp"), ("registration at startup", S + "Trigger.cpp")],
      [("triggers_", "armed triggers of a clock", TR + "TriggerManager.hpp"), ("active_", "armed or not", TR + "ManagedTrigger.hpp")],
      ["callbacks with tick and phase", "isActive, hasFired and hasTrigger", "refusals"],
      "deterministic simulation: seeded histories of counting and of arming, disarming, copying and destroying triggers from devices and from trigger callbacks, against a model of every trigger's obligation", SIMNOTE + "a deactivated cycle or time trigger is not set or destroyed before its old event has passed, as documented.")
    P("C22", "A trigger expression fires once its combination of conditions has come true",
      "An expression of conditions joined by and/or and grouped by parentheses fires exactly once, at the check or posting that makes it true, where each condition counts from the first check or posting that met it; nesting, spacing, references to other expressions and the kind of callback make no difference. "
      "A recurring update fires at its cycle, time or counter point and again when rescheduled; a toggle alternates between on and off, turning when its expression or its negation comes true. "
      "A suspended or expired expression does not fire.",
      ["schedules", "histories", "inputs", "configurations"], "every generated expression and every history of counting and posting, in any phase, before and during the run, on any clocks",
      "tests evaluate a handful of fixed expressions on one run of a core model; nesting deeper than one group and repeated postings are never judged",
      [TR + "ExpressionTrigger.hpp", TR + "ExpiringExpressionTrigger.hpp", S + "ExpressionTrigger.cpp", TR + "Comparator.hpp", TR + "ContextCounterTrigger.hpp"],
      [("operands counted down", TR + "ExpressionTrigger.hpp decrement_"), ("groups replaced by internal references", TR + "ExpressionTrigger.hpp buildMultiExpressionTrigger_"), ("dependents notified", TR + "ExpressionTrigger.hpp invokeClient_")],
      [("waiting_on_", "operands still to come", TR + "ExpressionTrigger.hpp"), ("has_fired_", "fired", TR + "ExpressionTrigger.hpp")],
      ["callbacks with tick, payload and counter", "hasFired", "posted announcements"],
      "deterministic simulation: seeded expressions over counters, statistics, notifications and other expressions, driven by seeded counting and posting histories, against a model that latches operands", SIMNOTE + "malformed expressions, and suspending nested ones, are left out.")
    L = "sparta/sparta/log/"; SIMT = "sparta/sparta/simulation/TreeNode.hpp"
    P("C23", "A notification reaches exactly its observers, a log message its taps' logs",
      "A posted notification is delivered once for every registration that observes its source - at the source, at an ancestor or at the global root; by name, list or pattern; before or after the source was added - and to nobody else, with the source, the observing node and the payload posted. "
      "A registration removed before its turn gets nothing, even when a callback removes it. "
      "A log message reaches every tap that observes its category and is written exactly once to each destination of those taps, complete and in the order of emission; moving, resetting or destroying taps or sources changes nothing else.",
      ["histories", "inputs", "configurations", "faults"], "every history of tree growth and destruction, registration, posting and tap changes, nested in callbacks or not, and every pattern of short and interrupted writes of the log files",
      "tests build one fixed tree, register first and post afterwards; callbacks never change the registrations and files never write short",
      [L + "NotificationSource.hpp", L + "MessageSource.hpp", L + "Tap.hpp", L + "Destination.hpp", SIMT, "sparta/sparta/simulation/VirtualGlobalTreeNode.hpp", "sparta/src/TreeNode.cpp", "sparta/src/MessageSource.cpp", "sparta/src/Destination.cpp"],
      [("observers broadcast to sources in the subtree", "sparta/src/TreeNode.cpp broadcastRegistrationForNotificationToChildren_"), ("sources added later ask their ancestors", "sparta/src/TreeNode.cpp generateNotificationObservationMap_"), ("duplicates dropped by sequence number", L + "Destination.hpp write")],
      [("observers_", "registrations at a source", L + "NotificationSource.hpp"), ("rof_notis_", "registrations at a node", SIMT), ("seq_num", "newest message written", L + "Destination.hpp")],
      ["callbacks with origin, observing node and payload", "text of streams and files", "observed, getNumObservations, hasObservers, message counters", "observation state callbacks"],
      "deterministic simulation: seeded histories of tree growth, registrations, posts and taps, changed while a notification is delivered and with short and interrupted writes of log files, against a model of who observes what", SIMNOTE + "the order among observers is not judged. One known finding is listed.")
    P("C24", "The pipeline database tells what was collected, when, where and with which value",
      "Every collectable under a collected node appears in the database, read back through the viewer's reader, as one gapless timeline: each value it held, from the tick it was collected to the tick it was replaced, closed, expired after its duration, stopped or the database was torn down, at its location, cut only at heartbeats and marked there as continued. "
      "Nothing appears that was not collected, every record can be found through the index by any window it overlaps, and a database is complete in itself however often collection was stopped, restarted or moved to another file before. "
      "A write that fails is reported; short and interrupted writes change nothing.",
      ["histories", "schedules", "inputs", "faults"], "every history of collecting by hand and automatically, delays, durations, starts, stops and moves of the collection at any tick of any clock, and every pattern of short, interrupted and refused writes",
      "the tests collect one fixed model from start to end, compare with a golden file or not at all, and the disk never misbehaves",
      ["sparta/sparta/collection/Collectable.hpp", "sparta/sparta/collection/DelayedCollectable.hpp", "sparta/sparta/collection/IterableCollector.hpp", "sparta/sparta/collection/CollectableTreeNode.hpp", "sparta/sparta/collection/PipelineCollector.hpp", "sparta/sparta/pipeViewer/Outputter.hpp", "sparta/src/ArgosOutputter.cpp", "sparta/sparta/pipeViewer/LocationFileWriter.hpp", "sparta/sparta/pipeViewer/ClockFileWriter.hpp", "sparta/sparta/pairs/SpartaKeyPairs.hpp"],
      [("a value that differs closes the open record", "sparta/sparta/collection/Collectable.hpp collect"), ("open records are cut at each heartbeat and an index entry is written", "sparta/sparta/collection/PipelineCollector.hpp performHeartBeat_"), ("pairs are described once per database", "sparta/sparta/pipeViewer/Outputter.hpp writeTransaction")],
      [("record_closed_", "no record is open", "sparta/sparta/collection/Collectable.hpp"), ("last_heartbeat_", "start of the current chunk", "sparta/sparta/collection/PipelineCollector.hpp"), ("registered_collectables_", "what is collected", "sparta/sparta/collection/PipelineCollector.hpp")],
      ["records, windows, first and last cycle through the reader", "clock and location files", "isCollectionActive", "exceptions"],
      "deterministic simulation: seeded histories of collecting, starting, stopping and moving the collection on several clocks, with short, interrupted and refused writes, read back through the viewer's reader and compared with a timeline model", SIMNOTE + "The reader is the C++ reader of the viewer in the repository.")
    P("C25", "A report tells exactly what was counted between its start and its stop",
      "Every report configured for a simulation is written once per location, to the place the descriptor names, with the statistics of its definition - those it names, or all below the place that its filter accepts and its depth reaches: the values show what was counted since the report started - or, for deltas, since the previous row - up to the tick of the row or of the stop. "
      "It starts and stops at the tick its conditions on counters, postings and other reports' events are met and not before, once; its rows are written at every update that falls between, of the cycles, time, counts or postings asked for, and at the end. "
      "Reports do not affect each other or the simulation, nor does the format; a write that fails is reported; short and interrupted writes change nothing.",
      ["histories", "schedules", "inputs", "configurations", "faults"], "every set of reports, conditions and updates on any clocks, every history of counts and postings over any division into runs, and every pattern of short, interrupted and refused writes",
      "the tests run a core model with a few fixed report files and compare with golden files; events never coincide, a stop never precedes a start, and the disk never misbehaves",
      ["sparta/src/ReportRepository.cpp", "sparta/src/ReportDescriptor.cpp", "sparta/src/Report.cpp", "sparta/sparta/report/Report.hpp", "sparta/sparta/report/format/CSV.hpp", "sparta/src/StatisticInstance.cpp", "sparta/sparta/trigger/ExpressionTrigger.hpp", "sparta/src/ExpressionTrigger.cpp", "sparta/src/Simulation.cpp"],
      [("start and stop callbacks, updates while running", "sparta/src/ReportRepository.cpp startReports_, stopReports_, updateReports_"), ("statistics sampled relative to the start", "sparta/src/StatisticInstance.cpp start, end"), ("reports notified of each other's events", "sparta/src/ExpressionTrigger.cpp tryAddReferencedTrigger_")],
      [("reports_have_stopped_", "stopped", "sparta/src/ReportRepository.cpp"), ("initial_", "value at the start", "sparta/sparta/statistics/StatisticInstance.hpp"), ("dependent_triggers_", "events waiting for this one", "sparta/sparta/trigger/ExpressionTrigger.hpp")],
      ["text of the report files: header, rows, values", "which files exist", "exceptions", "tick after each run"],
      "deterministic simulation: seeded simulations with reports that are started, stopped and updated by counters, cycles, times and postings on several clocks, with short, interrupted and refused writes, the files compared with a model of the counts between the report's events", SIMNOTE + "events that fall on the same tick may take effect in any order. Toggled reports and database back ends are left out.")
    P("C26", "Shared objects live exactly as long as they are referenced",
      "An object behind shared pointers is destroyed exactly once: when its last reference is dropped, moved away or replaced, and not before - whatever its constructor and destructor do to other pointers, and also when it holds the pointer that replaces the one to it. "
      "Every pointer refers to what it was last given and counts all references; a weak pointer keeps nothing alive and can be locked exactly as long as the object lives. "
      "An allocator hands out its blocks up to the maximum, takes every block back, tells which objects are outstanding, warns once past its watermark, and refuses beyond the maximum without losing anything; a constructor or allocation that fails changes nothing.",
      ["histories", "inputs", "faults"], "every history of creating, copying, moving, converting, locking and dropping pointers, also from within constructors and destructors, and every failure of constructors and allocations",
      "the tests create, copy and drop pointers one after the other; no destructor or constructor touches another pointer, none throws and no allocation fails",
      ["sparta/sparta/utils/SpartaSharedPointer.hpp", "sparta/sparta/utils/SpartaSharedPointerAllocator.hpp", "sparta/sparta/utils/SpartaSharedPointerBaseAllocator.hpp"],
      [("the object goes with the last strong reference, the block with the last of any kind", "sparta/sparta/utils/SpartaSharedPointer.hpp releaseRefCount_"), ("blocks are recycled", "sparta/sparta/utils/SpartaSharedPointerAllocator.hpp allocate_, releaseBlock_")],
      [("count", "strong references", "sparta/sparta/utils/SpartaSharedPointer.hpp"), ("wp_count", "weak references", "sparta/sparta/utils/SpartaSharedPointer.hpp"), ("free_blocks_", "blocks taken back", "sparta/sparta/utils/SpartaSharedPointerAllocator.hpp")],
      ["constructions and destructions", "get, use_count, expired, lock, comparisons", "outstanding objects, free and allocated blocks, callbacks", "exceptions"],
      "deterministic simulation: seeded histories of shared, weak and base class pointers over the heap and bounded allocators, with constructors that throw and destructors that change other pointers, against a model that counts references", SIMNOTE + "Assigning a pointer to itself is refused by design. One known finding is listed.")
    P("C27", "States change as their markers say, and their time adds up",
      "A state has the value it was last given: by an assignment, by a reset, or by its markers, which move it as soon as all but the threshold of the markers of a value are set and nobody monitors that value; monitors are told of every marker instead, exactly once each, whatever they do while they are told. "
      "An observer of a value is told once, when the state next gets that value, unless it was withdrawn. With tracking enabled, the time in the present value and the time spent in every value add up to the state's life, and the tracking file accounts for all states of the simulation - also for a second simulation in the process. "
      "State timers account for every cycle between the start and the end of a state in the histogram of that state, whether they were queried in between or not, and are never handed out twice; refused calls change nothing.",
      ["histories", "inputs", "faults"], "every history of states, markers, monitors, observers, timers and queries at any cycles, every reaction of a monitor, and every number of simulations in the process",
      "the tests walk through fixed transitions; the residency tests only assign values, no monitor reacts, no timer starts in cycle 0, and the tracking file is not read",
      ["sparta/sparta/simulation/State.hpp", "sparta/sparta/simulation/StateTracker.hpp", "sparta/sparta/simulation/StateTimerUnit.hpp", "sparta/sparta/simulation/Audience.hpp"],
      [("markers transition or signal", "sparta/sparta/simulation/State.hpp jointSet_"), ("residency is tracked by change", "sparta/sparta/simulation/StateTracker.hpp startState"), ("timers feed histograms when queried or released", "sparta/sparta/simulation/StateTimerUnit.hpp")],
      [("current_state_", "the value", "sparta/sparta/simulation/State.hpp"), ("state_delta_set", "time per value", "sparta/sparta/simulation/StateTracker.hpp"), ("state_set_delta_", "cycles per state since the last query", "sparta/sparta/simulation/StateTimerUnit.hpp")],
      ["values, marks, isSet", "signals and deliveries", "time in state, residency, the tracking file", "histograms of timers", "exceptions"],
      "deterministic simulation: seeded histories of states, markers, monitors, observers and state timers over simulated time, with monitors that act while they are signalled, refused operations and several simulations in one process, against a reference model", SIMNOTE + "Copies of a state and comparisons of State<bool> (which do not compile) are not exercised; of states that outlive the tracking file only an upper bound of the time is checked; how often zero is added to a timer's histogram is not judged.")
    P("C28", "The device tree is what was built, and every node gets its hooks",
      "Whatever sequence of constructions, attachments, destructions and phase changes a device tree goes through, its structure is that of the accepted operations: every node has one parent and a place in its parent's list, is found by name, alias, group and index, tag, path or pattern from every node exactly when it is there and visible, and has the location, level, root, phase and clock that follow from its place. "
      "Attaching a node that is its own ancestor, has a parent, clashes with a sibling or comes too late is refused and changes nothing, also when a hook or a derived constructor throws; a destroyed node leaves nothing behind in its parent, its tags or its orphaned children. "
      "Each phase change and walk calls every node's and resource's hook once, parents first, including those of nodes that hooks add during finalization, and is refused out of order; every attached node is announced once.",
      ["histories", "inputs", "faults"], "every sequence of tree operations in any phase, every order of destruction, every hook that refuses, throws or grows the tree",
      "the tests build a few fixed trees and destroy them in the reverse order; nothing is destroyed and looked up afterwards, hardly any hook throws and no orphan is attached again",
      ["sparta/src/TreeNode.cpp", "sparta/sparta/simulation/TreeNode.hpp", "sparta/sparta/simulation/RootTreeNode.hpp", "sparta/sparta/simulation/Resource.hpp"],
      [("children are checked, then mapped and attached", "sparta/src/TreeNode.cpp addChild_"), ("a destroyed node detaches itself and orphans its children", "sparta/src/TreeNode.cpp removeChildForTeardown_"), ("phases walk the tree", "sparta/src/TreeNode.cpp finalizeTree_")],
      [("children_", "children in order", "sparta/sparta/simulation/TreeNode.hpp"), ("names_", "identifiers of children", "sparta/sparta/simulation/TreeNode.hpp"), ("global_tags_map_", "nodes by tag", "sparta/sparta/simulation/TreeNode.hpp")],
      ["structure seen from every node", "results of lookups, patterns and replacements", "hooks in order", "exceptions", "the set of constructed nodes"],
      "deterministic simulation: seeded histories of building, attaching, orphaning, destroying and looking up tree nodes and of the tree's phases, with hooks that refuse, throw and grow the tree, constructors that fail half-way and nodes destroyed in every order, against a reference model of the tree", SIMNOTE + "What a failing allocation in the middle of an attachment leaves behind is not judged (documented as irrecoverable); scopes, extensions and moved nodes are not exercised.")
    P("C29", "A cache loses no byte and replaces the line used longest ago",
      "Whatever a cache is asked and whatever the memory behind it refuses, an access gives the bytes last stored: a hit asks the memory for nothing, a miss casts out the line it replaces exactly if that is valid and modified, and then reloads exactly the line asked for; a write marks its line, is passed on in write-through mode, and allocates on a miss exactly in write-allocate mode. "
      "Every line is in the set and way, and has the address, data and flags, it was given; an invalidated line is not hit. "
      "The way offered for replacement is the one used longest ago (LRU, or the tree's approximation of it), or an invalid one where asked for; using, invalidating and touching lines moves them in that order and no other line. Accesses beyond a line are refused.",
      ["histories", "inputs", "faults"], "every geometry and replacement, every history of accesses, fills, invalidations and mode changes in any order of completion, and every access the memory refuses",
      "the test streams through blocks of fixed size and counts misses; it compares no data that was cast out and reloaded, nothing is invalidated, no memory refuses and no misses overlap",
      ["sparta/cache/SimpleCache.hpp", "sparta/cache/SimpleCache2.hpp", "sparta/cache/Cache.hpp", "sparta/cache/BasicCacheSet.hpp", "sparta/cache/LineData.hpp", "sparta/cache/LRUReplacement.hpp", "sparta/cache/TreePLRUReplacement.hpp", "sparta/cache/DefaultAddrDecoder.hpp"],
      [("a miss casts out, then reloads", "sparta/cache/SimpleCache.hpp replaceLine_"), ("victims", "sparta/cache/BasicCacheSet.hpp, sparta/cache/SimpleCache2.hpp getLineForReplacement"), ("order of use", "sparta/cache/LRUReplacement.hpp, sparta/cache/TreePLRUReplacement.hpp")],
      [("ways_", "lines of a set", "sparta/cache/BasicCacheSet.hpp"), ("lru_stack_", "order of use", "sparta/cache/LRUReplacement.hpp"), ("plru_bits_", "the tree of the approximation", "sparta/cache/TreePLRUReplacement.hpp")],
      ["bytes read", "what the memory is asked for", "lines, flags and addresses", "the ways used first and last", "exceptions"],
      "deterministic simulation: seeded histories of accesses to caches in front of a memory that refuses some of them, with several misses outstanding and answered in any order, against a model of the bytes, the lines and the order of their use", SIMNOTE + "Caches whose number of sets is not a power of two, addresses of another bank than the cache's, the order of use after everything was invalidated (true LRU) and the counters of SimpleCache (documented as approximate) are not judged.")
    P("C30", "A simulation is configured with what it was given, and can write that down",
      "Every parameter has the value that the last matching assignment gave it - a command line assignment, an entry of a configuration file or of one it includes, by name or by pattern, in the order in which they were given - and else its default, which is that of the architecture if that names it and else the one built in; isDefault() says whether the two differ. Every element of every list, and every character of every text, arrives unchanged. "
      "What a file comments out has no effect. A value that cannot be is refused; a required assignment to a parameter which nothing has is refused, one flagged optional is not. Copies and merges of parameter trees hold the same values. "
      "The final configuration that a simulation writes gives every parameter the same value when it is read, whatever the device does to the writes, and a device that keeps nothing is reported.",
      ["histories", "inputs", "faults"], "every sequence of files, includes, architecture and command line assignments, every layout of the same content as YAML, every value of every type, and every failing or shortened write",
      "the tests read a few fixed files of simple values and compare a few parameters; no test reads the final configuration back, nests comments, overrides by pattern across files, or fails a write",
      ["sparta/sparta/parsers/ConfigParserYAML.hpp", "sparta/src/ConfigParserYAML.cpp", "sparta/sparta/parsers/ConfigEmitterYAML.hpp", "sparta/sparta/simulation/ParameterTree.hpp", "sparta/sparta/simulation/Parameter.hpp", "sparta/src/Parameter.cpp", "sparta/src/SimulationConfiguration.cpp", "sparta/src/Simulation.cpp"],
      [("a file becomes assignments", "sparta/src/ConfigParserYAML.cpp"), ("the last match wins", "sparta/sparta/simulation/ParameterTree.hpp"), ("assignments become values", "sparta/src/Parameter.cpp readValueFromVirtualTree_"), ("the final configuration", "sparta/sparta/parsers/ConfigEmitterYAML.hpp")],
      [("root_", "assignments and patterns in order", "sparta/sparta/simulation/ParameterTree.hpp"), ("val_, def_val_", "value and default", "sparta/sparta/simulation/Parameter.hpp")],
      ["values and defaults of parameters", "the tree of parameters", "refusals", "the final configuration"],
      "deterministic simulation: seeded configurations of a whole simulation, against a model in which the last assignment that matches wins, with short, interrupted and refused writes of the final configuration that is then used again", SIMNOTE + "A value that cannot be, given to a parameter set which is complete before it is attached, ends the process (addChild is noexcept) and is not judged; neither is <OPTIONAL> for what an earlier file requires, nor whether a missing parameter that a pattern for existing ones also covers is refused.")
    P("C08", "A simulation depends only on its inputs, not on addresses or clocks",
      "Running the same simulation again gives the same history: the same events in the same order at the same ticks, the same payloads, register, memory, scoreboard and container contents, the same checkpoints and the same refusals, no matter where the allocator places the objects, what freed or fresh memory contains, or what the host's clocks show. "
      "In particular nothing observable is ordered by the address of an object, and no value is read that was never written.",
      ["schedules", "histories", "configurations"], "every simulated history of every part the other checks drive, and every placement of the objects in memory, content of unused memory and reading of the host clocks",
      "a test runs once in one process with one layout, so it agrees with itself whatever the order depends on",
      [K + "Scheduler.hpp", "sparta/src/Scheduler.cpp", "sparta/sparta/simulation/Clock.hpp", R + "Scoreboard.hpp", R + "Pipeline.hpp", "sparta/src/DAG.cpp", "sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp"],
      [("events of one group run in the order of scheduling", K + "Scheduler.hpp scheduleEvent"), ("groups come from a graph sort", "sparta/src/DAG.cpp"), ("callbacks are walked in order of registration", R + "Scoreboard.hpp")],
      [("tick_queue_", "pending events", K + "Scheduler.hpp")], ["hash of the whole event log of two executions"],
      "deterministic simulation run twice: each seeded world is executed again under another allocation layout, memory fill and clock, and both histories must be equal", SIMNOTE + "a differential check; what a history must be is judged by the other properties. The environment and files are the same in both executions.")
