L = "score/mw/com/impl/bindings/lola/"
AI = "path-sensitive abstract interpretation of the type-checked program with term equivalence to a specification"
TS = "typestate/ordering analysis over all abstract paths (inlined, path-sensitive dataflow)"

P("P01", "Slot status word keeps reader count, timestamp and markers apart",
  "For every timestamp and reader count, an event slot's status reads back exactly the values stored. The never-published and the being-written markers are mutually exclusive and are recognised by exactly their own predicates; a slot counts as used exactly when a reader holds it or it is being written. A slot is reported inside a timestamp window exactly when it is published and its timestamp lies strictly between both bounds.",
  ["inputs"], "every 64-bit status word, every timestamp and reader count, every window",
  "Unit tests sample a handful of words; the encoding must be right for all 2^64 words because both processes decode what the other wrote.",
  [L + "event_slot_status.h", L + "event_slot_status.cpp"], ["status word of an event slot in shared memory"], ["packing and unpacking of a 64-bit word; marker constants"], ["values returned by the status accessors"],
  "bit-provenance abstract interpretation with equivalence to the specification", "every accessor and mutator of the status class is interpreted on a symbolic 64-bit word with bit-provenance terms; each setter/getter pair and each predicate is compared as a term, for all words at once, with the specified function.")

P("P02", "Consumers change reader counts only under an open transaction-log announcement",
  "A consumer announces in its transaction log which slot it is going to reference before it raises the slot's reader count, and confirms or withdraws the announcement before the operation returns; the same holds for releasing. Every such change is exactly one reader up or down, by one atomic operation with acquire and release ordering, on the announced slot, and only on slots seen as published. The slot handed to the caller is the one referenced, and an empty answer leaves no reference behind.",
  ["schedules", "crash_points", "histories"], "every interleaving of consumers and provider, every retry of the compare-and-swap, every crash point between the steps",
  "The order of shared-memory accesses is only observable when a process dies or another one interleaves between two of them; the unit tests run single operations to completion.",
  [L + "consumer_event_data_control_local_view.cpp", L + "transaction_log_local_view.cpp"], ["slot status words and transaction log in shared memory"], ["announce / compare-and-swap / confirm protocol"], ["order of atomic accesses and log operations on each path"],
  TS, "every path of reference-next, reference-specific, dereference and unlogged dereference; typestate automaton over log operations and atomic accesses; stored values compared as terms with the expected status plus/minus one reader.")

P("P03", "A consumer gets the newest published event of its window; exact event count",
  "Asked for the next event within a timestamp window, a consumer only gets an event published strictly inside the window, and none of the other slots inspected in that search was newer within the window. The number of new events reported since a reference time equals the number of published slots newer than it.",
  ["inputs", "histories"], "every content of the slots and every window, any number of failed attempts",
  "The choice depends on the relative order of arbitrary timestamps in arbitrary slot positions; tests use a few fixed arrangements.",
  [L + "consumer_event_data_control_local_view.cpp"], ["slot status words"], ["linear scan with a shrinking window"], ["index returned by the search; returned count"],
  AI, "all paths through the scan with two symbolic slots plus widening: order facts on the decoded timestamps must imply that the chosen slot dominates each other inspected slot; the count must equal the number of in-window predicates decided true on the path.",
  note="Slot array abstracted to two distinct elements plus a widened remainder.")

P("P04", "Provider claims only unused slots, publishes atomically, recovers claimed slots",
  "A provider only claims a slot for writing by atomically replacing a status that was seen unused (never published, or published, without readers and not being written), and hands out exactly the slot it claimed; among reusable slots the one with the oldest event is taken unless a never-published one exists. Publishing a slot stores the given timestamp with no readers and with release ordering. Discarding or recovering resets exactly the slots that are still being written.",
  ["schedules", "histories", "crash_points"], "every interleaving with readers, every slot content, every number of retries",
  "A reader can take a reference between the search and the claim; tests cannot enumerate interleavings or slot contents.",
  [L + "provider_event_data_control_local_view.cpp"], ["slot status words"], ["search plus compare-and-swap"], ["atomic accesses to slots; index returned"],
  TS, "every path of allocation, publication, discard and recovery; expected/new values of each atomic access compared as terms; typestate of the claimed slot until return.",
  note="Slot array abstracted to two distinct elements plus a widened remainder.")

P("P08", "Owning handles release exactly once, by their last owner, and cannot be copied",
  "Whatever an owning handle (sample, sample to be filled, budget guard, slot reference, lock file, shared-memory reference, service flag file, socket) releases when it is destroyed is released exactly once after any chain of moves and move assignments, including self assignment. A moved-from or empty handle releases nothing, and handles cannot be copied.",
  ["histories", "schedules"], "every sequence of move construction, move assignment, self assignment and destruction, in any order, over every internal state of both handles",
  "A double or missing release needs a particular move sequence between particular states; tests cover single moves.",
  ["score/mw/com/impl/sample_reference_tracker.cpp", "score/mw/com/impl/sample_allocatee_guard.cpp", L + "slot_decrementer.cpp", L + "sample_ptr.h", "score/mw/com/impl/plumbing/sample_ptr.h", "score/memory/shared/lock_file.cpp", "score/memory/shared/memory_region_map.cpp"],
  ["ownership of slot references, sample budget, file descriptors, region references"], ["move construction, move assignment, destructor"], ["release operations performed"],
  "ownership analysis: resource conservation of symbolic move/destroy sequences", "for each handle class, move construction, move assignment and self assignment followed by both destructions (in both orders) are interpreted on symbolic objects; the multiset of release effects must equal the one of destroying the original objects, for every case split of their state.")

P("P09", "Sample budget: never more samples held than subscribed, oldest delivered first",
  "An application never holds more samples of an event than the maximum it subscribed with: every delivered sample takes one unit of that budget and one slot reference, returned when the sample is released. One fetch delivers at most the requested number, oldest first, only events newer than those delivered before, and the last delivered time advances to the newest of them. Subscribing sets the budget before data can arrive, a different maximum while subscribed is refused without effect, and unsubscribing or destroying with held samples terminates.",
  ["inputs", "schedules", "histories"], "every requested number, every remaining budget, every interleaving of concurrent releases, every slot content",
  "Budget arithmetic races with releases on other threads and depends on arbitrary counts and timestamps; tests use a few fixed sequences.",
  ["score/mw/com/impl/sample_reference_tracker.cpp", "score/mw/com/impl/proxy_event.h", "score/mw/com/impl/proxy_event_base.cpp", L + "slot_collector.cpp", L + "proxy_event.h", "score/mw/com/impl/sample_allocatee_tracker.cpp"],
  ["sample budget counter", "last delivered timestamp", "slot references"], ["reservation by compare-and-swap, guard per sample, slot collection"], ["samples delivered, slots referenced, counter values"],
  TS, "every path of reservation, guard handout, slot collection, sample delivery, subscribe and unsubscribe; amounts compared as terms, order of events as typestate.",
  note="Collection loops analysed for up to two slots exactly and widened beyond.")

P("P13", "Lock files and advisory file locks are exclusive, honest and leak-free",
  "Creating a lock file succeeds only for the one process that brought it into existence, opening never creates, a failed opening leaves neither an open descriptor nor a newly created file behind, and releasing closes once and removes the file exactly if it is owned. An exclusive file mutex locks exclusively, a shared one shared, and trying never blocks and reports success exactly if the lock was obtained. A mutex-with-lock holds nothing when created, knows whether it obtained the lock, and on destruction releases exactly what it obtained, while its mutex still exists.",
  ["histories", "inputs"], "every outcome of every operating system call, every path, every sequence of locking, trying and destruction",
  "Failure paths of system calls and destruction orders are not reachable by the unit tests' mocks in all combinations; two processes racing for a lock file only differ in flag bits.",
  ["score/memory/shared/lock_file.cpp", "score/memory/shared/flock/flock_mutex.cpp", "score/memory/shared/flock/exclusive_flock_mutex.cpp", "score/memory/shared/flock/flock_mutex_and_lock.h"],
  ["descriptor and file of a lock file", "advisory lock on the descriptor"], ["open flags, flock operations, close and unlink"], ["system calls performed and values returned"],
  TS, "every path of creating, opening, locking, trying, unlocking and destroying with both outcomes of every system call; flags and descriptors compared as terms; construction and destruction sequences of the mutex-with-lock interpreted.")

P("P19", "A future wakes its waiters exactly when its value is ready, without lost wakeups",
  "Waiting on a future returns only after it was marked ready, however the marking and the waiting interleave, and marking ready wakes every waiter. The value given is stored before the future becomes ready. The readiness is only touched under the future's lock, and marking does not touch the future any more once a waiter may have returned and destroyed it.",
  ["schedules"], "every interleaving of waiters and the marking thread, spurious wakeups, destruction of the future directly after the wait",
  "Lost wakeups and use after destruction need a particular interleaving between two instructions; tests run one or two fixed schedules.",
  ["score/message_passing/non_allocating_future/non_allocating_future.h"], ["ready flag", "value"], ["lock, condition variable"], ["order of lock, flag, value and wakeup operations"],
  TS, "every path of waiting, marking and updating; lockset and order of flag, value and notification events; a wait forgets everything known about shared memory, so a return without a fresh look at the flag is a violation.")

P("P17", "A client connection answers every request once and always stops cleanly",
  "A message is transmitted or queued only if it fits the negotiated size on a ready connection, success is reported exactly then, and refusals have no effect. Every accepted request is answered exactly once, by its reply or by an error when the connection stops, never while the connection's lock is held and never after the waiting call has returned; queue capacity is never lost and a queued message never stays behind unattended. The first stop reason wins and always brings the connection down: it reports stopped only after being detached and closed, and destruction waits for that.",
  ["schedules", "histories", "inputs"], "every interleaving of senders, the callback thread, stop and restart; every outcome of sending, receiving and connecting; every queue content",
  "Lost answers, leaked queue elements and callbacks into finished calls need a failing send racing with a disconnect or a particular queue state; tests run single scripted sequences against a mocked engine.",
  ["score/message_passing/client_connection.cpp", "score/message_passing/client_connection.h"],
  ["send queue and free pool", "pending reply", "connection state and stop reason"], ["send lock, engine callbacks, state machine"], ["messages handed to the engine, callbacks run, states reported"],
  TS, "every path of the public operations and of every closure they hand to the engine (interpreted from an arbitrary later state): resource conservation of queue elements, lockset at each access and callback, typestate of stop reason and state, error codes and bounds compared as terms.",
  note="Queues unrolled to two elements; engine interface opaque (its Linux implementation is a separate property).")

P("P18", "Messages cross the local socket complete, bounded and to the right handler",
  "A message is put on the wire as one frame of kind, exact length and whole payload, success is reported exactly if all of it was sent, and a payload the frame cannot represent or which exceeds the negotiated size is refused. A receiver delivers only completely received messages that fit its receive buffer, never writes beyond that buffer and sizes it for every registered endpoint. A server hands requests and one-way messages, unchanged, to their own handler, and a failed reception, a failing handler or an unknown kind ends that connection.",
  ["inputs", "fault_sequences"], "every payload length and kind; every outcome of the socket calls, short transfers included; every negotiated size and handler result",
  "Short transfers, lengths beyond 16 bit and a negotiated size mixed up between directions do not occur in round-trip tests; the tests of this code are not even buildable here.",
  ["score/message_passing/unix_domain/unix_domain_engine.cpp", "score/message_passing/unix_domain/unix_domain_server.cpp", "score/message_passing/client_connection.cpp"],
  ["frame buffers", "receive buffer", "negotiated sizes"], ["socket calls", "handler dispatch"], ["buffers handed to the socket layer, messages handed to handlers, reported outcome"],
  AI, "the scatter/gather vectors handed to the socket layer are read from the abstract state at the call on every path and compared as terms with kind, length and payload; reported outcome against the transferred count; bounds established on the very value used; the input closure of a new connection interpreted from an arbitrary later state.",
  note="Linux socket implementation; the QNX one needs headers that are absent.")

P("P20", "Timed commands run once, in order, on time, on the callback thread",
  "Every command entered for the callback thread runs at most once, not before its time, in order of time and otherwise first come first served, without the queue being locked; entering one wakes the thread, which never sleeps past the next due time nor indefinitely while a command is queued. Cleaning up an owner removes exactly its endpoints and commands, always on the callback thread, and is complete when the call returns. Before its descriptors are closed the thread has been asked to quit and has ended, and it gives input only to endpoints that have an event.",
  ["schedules", "histories", "inputs"], "every content of the queue (unrolled to two commands), every time of entering, every result of waiting, every thread that cleans up",
  "Sleeping past a deadline needs a command becoming due between two reads of the clock; lost wake-ups and use after clean-up need a particular interleaving with the callback thread.",
  ["score/message_passing/timed_command_queue.cpp", "score/message_passing/unix_domain/unix_domain_engine.cpp"],
  ["command queue", "polled descriptors", "quit request"], ["queue lock, wake-up pipe, poll"], ["commands run, time waited, endpoints given input"],
  TS, "ordering facts established before each insertion and removal, lockset at each use of the queue and each callback, the time handed to poll evaluated as a term over boundary values of the remaining time, the clean-up command interpreted from an arbitrary later state.",
  note="Linux engine; the QNX engine needs headers that are absent (its time computation has the defect repaired here in the Linux one).")

P("P21", "Local socket connections and descriptors never leak nor get closed twice",
  "Every descriptor opened for a client, a listening server or an accepted connection is closed exactly once on every failure and on destruction, and not while it is still registered with the callback thread. A server that reports success listens and has its endpoint registered under its own name; stopping removes all of its endpoints before the descriptor is closed, and stopping twice does nothing. An accepted connection stays alive until its endpoint is removed and is told of its end exactly once; a refused one is closed and told nothing; a failed accept is survived.",
  ["fault_sequences", "histories"], "every outcome of socket, bind, listen, accept, credential query, connect callback; every order of start, stop and disconnect",
  "Failure paths of socket calls are not reachable in tests with real sockets; a stale slot in the poll set shows only after a particular sequence of registrations.",
  ["score/message_passing/unix_domain/unix_domain_server.cpp", "score/message_passing/unix_domain/unix_domain_engine.cpp"],
  ["server descriptor", "connections", "poll set"], ["start, stop, connect and disconnect handling"], ["descriptors closed, endpoints registered, disconnect notices"],
  TS, "resource typestate of every opened descriptor over all abstract paths, ownership of the connection object after registration, and slot-wise agreement of the two poll lists.",
  note="Linux server only.")

P("P05", "Every sample reference and subscription is logged before it takes effect",
  "A consumer marks begin before and end after every taking and releasing of a sample reference and of a subscription, on exactly the record of that sample, and never records a step its previous step does not allow. A rollback of such a record gives back exactly the completed references and the completed subscription, each once and with the recorded sample count, and refuses what was interrupted half-way.",
  ["crash_points", "histories"], "every point at which a consumer can die, every state of the log, every slot index and sample count",
  "The log matters only when a process dies between two instructions; tests replay a handful of hand-made log states.",
  ["score/mw/com/impl/bindings/lola/transaction_log_slot.h", "score/mw/com/impl/bindings/lola/transaction_log_local_view.cpp", "score/mw/com/impl/bindings/lola/subscription_not_subscribed_states.cpp"],
  ["transaction log slots", "recorded sample count"], ["begin, commit and abort steps; rollback"], ["order of log marks and shared counters; undone references"],
  TS, "bit provenance of the two marks of a slot, typestate of every logging step against the preceding one, log steps around each change of the subscription counters on every path, rollback over logs unrolled to two slots with the undo callbacks counted per slot state.")

P("P06", "A restarted consumer's leftovers are rolled back once, by its owner only",
  "A transaction log is acquired by at most one consumer and freed only when it holds nothing open. After a restart exactly the logs of the restarted application are marked and rolled back, on the control data of the very event they belong to, after the previous process was announced as outdated and under the lock of that service instance; a failed rollback is reported and keeps the log.",
  ["crash_points", "schedules", "histories"], "every occupancy of the log set, every pair of concurrent registrations, every outcome of a rollback, every restart",
  "Rolling back the wrong log or twice needs several applications, events and a restart; tests do one of each.",
  ["score/mw/com/impl/bindings/lola/transaction_log_set.cpp", "score/mw/com/impl/bindings/lola/transaction_log_rollback_executor.cpp", "score/mw/com/impl/bindings/lola/transaction_log_registration_guard.cpp", "score/mw/com/impl/bindings/lola/rollback_synchronization.cpp"],
  ["transaction log set", "rollback marks"], ["log acquisition, rollback executor, rollback lock"], ["logs acquired, marked, rolled back and freed"],
  TS, "atomic acquisition protocol with memory orders on every path, set unrolled to its elements with the marks and ids compared as terms, ordering of announcement, marking, locking and rollback in the executor, pairing of each control data with its own log.")

P("P07", "A provider never accepts more subscribers or samples than configured",
  "Whatever consumers subscribe and unsubscribe concurrently, a subscription is accepted exactly if fewer than the maximum of subscribers are subscribed and, if the limit is enforced, the samples of all fit into the provider's slots; the accounting never wraps. Each accepted subscription and each withdrawal changes the accounting by exactly one subscriber and its samples, and a refusal changes nothing.",
  ["schedules", "inputs", "histories"], "every interleaving of subscribers, every sample count and configured limit, every accounting state",
  "Lost updates need two processes between load and exchange; wrapping needs sums beyond 16 bits which no test uses.",
  ["score/mw/com/impl/bindings/lola/event_subscription_control.cpp", "score/mw/com/impl/bindings/lola/event_subscription_control.h"],
  ["packed subscription state"], ["compare and exchange of the packed state"], ["state before and after each exchange, result reported"],
  AI, "linear integer forms over the bit segments of the packed state, with truncations resolved only where the facts of the path bound the sum; limits and refusals entailed by those facts; one exchange per success with acquire and release ordering.",
  note="The number of retries under contention is not bounded.")

P("P16", "An event subscription follows the provider and never leaks or lies",
  "Subscribing registers and subscribes exactly once with the requested number of samples, or fails and leaves nothing behind; subscribing again succeeds without effect exactly for the same number; unsubscribing withdraws exactly what was subscribed. When the provider goes and comes back the subscription is pending and active again, a receive handler is registered exactly while it is active, and every change of state is reported once, with the new state, all under one lock.",
  ["histories", "schedules", "fault_sequences"], "every state of the subscription, every operation and outcome of the provider, every combination of handlers set",
  "The guarantees are about sequences of provider and consumer actions; tests drive a few sequences with mocks, and this code is not even built here.",
  ["score/mw/com/impl/bindings/lola/subscription_state_machine.cpp", "score/mw/com/impl/bindings/lola/subscription_not_subscribed_states.cpp", "score/mw/com/impl/bindings/lola/subscription_subscribed_states.cpp", "score/mw/com/impl/bindings/lola/subscription_subscription_pending_states.cpp", "score/mw/com/impl/bindings/lola/subscription_helpers.cpp"],
  ["subscription state", "recorded sample count", "receive handler registration"], ["state machine lock, virtual state operations"], ["state after each operation, calls to provider accounting, messaging and change handler"],
  TS, "the state machine is built by interpreting its constructor, then every public operation is interpreted from every state satisfying an inductive invariant (virtual calls resolved on the constructed states); the invariant, the effects on provider accounting, log registration, messaging and change handler, and the lock are checked on every path.")

P("P22", "Equality, order and hash of value types agree and miss no member",
  "Identifiers, handles and configuration values compare equal exactly when everything that can differ between them is equal; ordering is a strict weak order that never orders equal values and, except for the documented coarser order of deployments, orders different ones; equal values hash equally. Shared memory vectors and strings compare equal to their standard counterparts exactly if they have the same elements.",
  ["inputs"], "every pair and triple of values of each comparable type, every string and vector content",
  "Keys of maps and sets rely on the laws for all values; tests compare a few pairs which differ in one member.",
  ["score/mw/com/impl/handle_type.cpp", "score/mw/com/impl/instance_identifier.cpp", "score/mw/com/impl/configuration/service_instance_deployment.cpp", "score/mw/com/impl/configuration/lola_service_instance_deployment.cpp", "score/mw/com/impl/bindings/lola/element_fq_id.cpp", "score/mw/com/impl/tracing/configuration/service_element_identifier_view.cpp", "score/memory/shared/vector.h"],
  ["members of the value types"], ["operator==, operator<, std::hash of every value type"], ["result of a comparison, hash value"],
  AI, "every operator is interpreted into a decision table over comparisons of corresponding members; over the finitely many member relations equality is shown exact and complete over the class's members, order is shown lexicographic, hence a strict weak order, and the members read by the hash are shown to take part in equality.",
  note="Cached strings derived from other members are assumed to be computed from compared members; the order of service instance deployments looks at the instance id only, as its tests document.")

P("P23", "Names of shared objects identify exactly one object",
  "The names under which a service instance's shared memory objects, marker files, flag files and message endpoints exist are built from the identity of the object alone, so that different objects never share a name and provider and consumer derive the same name for the same object, whichever way the consumer found the instance. Texts that stand for enumeration values or identifiers are pairwise different, and a text made from a value is read back as that value.",
  ["inputs", "configurations"], "all service, instance, application and process ids, all qualities",
  "Tests look at the names of a few small ids; whether two names can collide is a question about all pairs of ids.",
  ["score/mw/com/impl/bindings/lola/shm_path_builder.cpp", "score/mw/com/impl/bindings/lola/partial_restart_path_builder.cpp", "score/mw/com/impl/bindings/lola/path_builder.cpp", "score/mw/com/impl/bindings/lola/messaging/message_passing_client_cache.cpp", "score/mw/com/impl/bindings/lola/service_discovery/flag_file.cpp", "score/mw/com/impl/configuration/quality_type.cpp", "score/mw/com/impl/bindings/lola/proxy.cpp", "score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp"],
  ["service id", "instance id", "quality"], ["path builders", "flag file names", "ToString / FromString"], ["name passed to the operating system"],
  AI, "every name builder is interpreted with symbolic ids into a template of literals and formatted numbers; templates are checked for containing each id, for unambiguous delimiting, and, as regular languages, for disjointness between kinds of objects; the templates used by Proxy::Create are compared with those of the provider; enumeration texts are computed for every enumerator and read back.",
  note="Identifiers longer than the operating system's limit on socket names are not considered.")

P("P10", "Offset pointers never lead out of their memory region",
  "Following a pointer stored in shared memory yields exactly the object it was set to, and never an address for which the object, or the pointer itself, would reach beyond the memory region, however the stored value was corrupted, even while it changes concurrently; a valid or null pointer is never refused. Copies, assignments and exchanges of such pointers, in, out of and between regions, designate the same object and keep being checked against the region they came from. Address arithmetic is exact or ends the process, and comparisons compare the addresses designated.",
  ["inputs", "programs"], "all offsets, addresses, region bounds, element sizes and copy directions",
  "Tests try a few offsets in one region; an offset read from shared memory can have any value at any time, and overflow needs extreme ones.",
  ["score/memory/shared/offset_ptr.h", "score/memory/shared/offset_ptr_bounds_check.cpp", "score/memory/shared/pointer_arithmetic_util.cpp", "score/memory/shared/memory_region_bounds.cpp", "score/memory/shared/memory_resource_registry.cpp"],
  ["offset", "bounds of the region"], ["get, *, ->, []", "copy, assignment, swap, arithmetic"], ["address handed out", "termination"],
  AI, "every accessor, copy, arithmetic and comparison operator is interpreted with symbolic addresses, offsets and a map of regions that answers anything; on each path on which an address is handed out, linear arithmetic over the path's branch conditions must imply start <= address and address + size <= end of the region looked up; results must equal the mathematical sum or difference within the type's range; the offset may be read once per access.",
  note="Pointers whose own storage touches the edge of a region from outside (inclusive bounds) are not covered, nor is arithmetic on null pointers.")

P("P11", "Address lookups see a complete map of memory regions",
  "Looking up the memory region of an address, which takes no lock, always consults one complete version of the map of known regions, however registrations run meanwhile: no version is overwritten while a lookup reads it or can still start to read it, and each becomes visible only when complete. A lookup returns bounds that contain the address exactly if a known region contains it. Registrations change nothing but the region concerned, refuse overlapping regions, and keep the known regions and the registered resources in step.",
  ["schedules", "histories", "inputs"], "all interleavings of lookups with registrations; all addresses and regions",
  "The hand-over between writer and lock-free readers fails only in particular interleavings of a few instructions, which tests cannot force.",
  ["score/memory/shared/memory_region_map.cpp", "score/memory/shared/memory_region_map.h", "score/memory/shared/memory_resource_registry.cpp"],
  ["version in use", "reader counts", "regions of each version"], ["GetBoundsFromAddress, GetSize", "UpdateKnownRegion, RemoveKnownRegion, ClearKnownRegions", "MemoryResourceRegistry"], ["bounds returned"],
  AI, "the writers are interpreted with the slot search summarised by induction and the slot number evaluated over all current versions; on every path the slot must have been taken from count 0 to a count that no reader path accepts, written only between that and its opening, and opened before being published, with release/acquire orders; reader paths must read only between entering and leaving the same slot; lookups and updates run on ordered maps of 0..3 symbolic disjoint regions and are compared with the mathematical result.",
  note="Maps of more than three regions are covered only as far as the code treats them through the ordered-map operations; an upper limit on the number of concurrent lookups (2^31) is assumed.")
P("P12", "One process-id entry per application, never another application's",
  "Registering an application's process id in the shared table changes no entry of another application and never leaves an application with two entries, however many applications register at the same time and wherever an earlier registration was interrupted. It returns the id of the application's previous process exactly if one was registered, so that this process can be announced as outdated, and otherwise its own; it fails only without effect, when no unused entry could be taken. An entry is visible as used only with its process id stored, and the status and application id of an entry read back exactly as set.",
  ["schedules", "crash_points", "inputs"], "for every two-entry table in every state, every interleaving of concurrent registrations, every application id and process id",
  "A provider uses the table to learn that a consumer process was replaced; a wrong entry lets it treat a living process as dead, or leaves notifications addressed to a dead one.",
  ["score/mw/com/impl/bindings/lola/application_id_pid_mapping.cpp", "score/mw/com/impl/bindings/lola/application_id_pid_mapping.h", "score/mw/com/impl/bindings/lola/application_id_pid_mapping_entry.cpp"],
  ["ApplicationIdPidMappingEntry::key_application_id_status_", "ApplicationIdPidMappingEntry::pid_"], ["detail::RegisterPid", "ApplicationIdPidMappingEntry::CreateKey"], ["ApplicationIdPidMapping::RegisterPid"],
  AI, "all paths of RegisterPid over a two-entry table with unconstrained entry contents and every load re-read (any interference): each change is matched with the load or swap that justifies it; keys are decoded by the code's own reader as bit-field terms")


P("P14", "Memory blocks handed out in shared memory are disjoint, aligned, inside it",
  "Whatever processes and threads allocate in a shared memory object at the same time, every block handed out has the requested size and alignment, overlaps neither another block nor the management data, and ends within the object; if it does not fit, the process ends. Objects and containers placed in shared memory request exactly the size and alignment of what they store, from the resource they belong to. The number of bytes reported as used, and the sizes calculated beforehand, are what the allocations take.",
  ["schedules", "inputs", "histories"], "every interleaving of allocating processes, every size, alignment, state of the object, every sequence of up to three blocks on a grid of sizes",
  "Overlap of blocks needs two processes between reading and moving the allocation position; sizes near the end of the object or of the integer range are not tested.",
  ["score/memory/shared/shared_memory_resource.cpp", "score/memory/shared/new_delete_delegate_resource.cpp", "score/memory/shared/memory_resource_proxy.cpp", "score/memory/shared/polymorphic_offset_ptr_allocator.h", "score/memory/shared/managed_memory_resource.h", "score/memory/shared/pointer_arithmetic_util.cpp"],
  ["number of bytes already allocated"], ["memory_resource::allocate", "construct", "CalculateAlignedSizeOfSequence"], ["block returned, position after it"],
  AI, "allocation is interpreted with symbolic base, object size, request and position; std::align is replaced by its specification; on each path that hands out a block, linear forms must show that the block was computed from the position which the one successful compare and exchange replaced, that the new position is the block's end, and that the block was bounded by the end of the object; initial position, dry run, proxies, allocators and size calculation are compared with the same specification, the size calculation by evaluating its path terms on a grid.",
  note="Size calculation is decided on a grid of sizes and alignments and sequences of up to three blocks. Attempts under contention are limited by the code; running out of them ends the process.")

P("P15", "Shared memory objects are created exclusively and opened only when complete",
  "A shared memory object is created only if no object of that name exists, and other processes can open it only after it has its full size, its access rights and its initial content; it is initialised exactly once. Access is granted exactly to the users, and for the operations, which were configured; opening maps the whole object with no more access than asked for and changes nothing, and an object owned by neither this user nor an allowed one is not handed out. Objects that are no longer used, and lock files, are released exactly once, and removing an object affects no other.",
  ["schedules", "fault_sequences", "configurations"], "every interleaving of creating and opening processes, every outcome of the operating system's calls, all kinds of permissions",
  "The window between creating and completing an object is hit only by another process at the right moment; tests replace the operating system and check single call sequences.",
  ["score/memory/shared/shared_memory_resource.cpp", "score/memory/shared/shared_memory_factory_impl.cpp", "score/memory/shared/lock_file.cpp"],
  ["lock file", "shared memory object", "registered resources"], ["SharedMemoryFactory Create, Open, CreateOrOpen, Remove, RemoveStaleArtefacts", "LockFile"], ["calls to the operating system and their order"],
  TS, "creation and opening are interpreted from the public functions with the resource object built by its constructors and each operating system call answering success or failure; the resulting traces are checked for the span over which the lock file is held, for flags, modes, access lists and sizes, and for the order of sizing, mapping, management data and initialisation; destructor, lock file class and factory are checked on all their paths against the objects they hold.",
  note="A process that finds the lock file for longer than the time limit ends; stale lock files are removed on request only. Not covered: an object that another process removes between a failed creation and the following opening (CreateOrOpen), and one that is opened in one thread while its last user in another is just releasing it.")

P("P24", "Method calls carry their own arguments and results between the processes",
  "A method call presents to the provider's handler exactly the values the caller passed, each at its own properly aligned place within the memory both sides reserved for that call, and gives the caller exactly the result the handler wrote for it; a call position is reused only when no argument or result of it is still held, and a failed or refused call returns the error and leaves no position occupied. Values that do not fit into, or already lie in, the target memory are never written. Calls reach only the handler registered for that client's current process with the quality it was registered for, handlers and memory of a client that restarted or unsubscribed are dropped, and those of other clients are kept.",
  ["inputs", "programs", "histories"], "signatures of several shapes over types of different size and alignment, every outcome of each step, every state of the positions' flags, up to two clients in every relation to the caller",
  "Layout errors show only for particular sequences of sizes and alignments, flag errors only while results are still held, and stale handlers only after a client has crashed and come back.",
  ["score/mw/com/impl/util/type_erased_storage.h", "score/mw/com/impl/methods/proxy_method.h", "score/mw/com/impl/methods/proxy_method_with_in_args_and_return.h", "score/mw/com/impl/methods/method_signature_element_ptr.h", "score/mw/com/impl/methods/skeleton_method.h", "score/mw/com/impl/bindings/lola/proxy_method.cpp", "score/mw/com/impl/bindings/lola/skeleton_method.cpp", "score/mw/com/impl/bindings/lola/methods/type_erased_call_queue.cpp", "score/mw/com/impl/bindings/lola/methods/method_resource_map.cpp"],
  ["argument and result flags of each position", "handlers and memory per client"], ["ProxyMethod::operator(), Allocate", "SkeletonMethod::RegisterHandler", "OnProxyMethodSubscribeFinished, OnProxyMethodUnsubscribe"], ["memory read and written", "arguments of the handler"],
  AI, "sizes, writing and reading are interpreted on concrete type lists and addresses and must all agree with one layout; calls and allocations run on queues of two positions with arbitrary flags and both outcomes of every binding operation; the handlers that the typed and the binding layer register are captured and invoked with each position, and must pass on exactly the result and arguments of it; maps of clients' handlers and memory are given concrete entries in all relations to the client at hand",
  note="Layout is decided on a set of type lists with alignments 1 to 16; user handlers and the message that carries the call (see P17, P20) are not followed; a buffer that starts misaligned is not considered.")

P("P25", "An offer is visible in the file system exactly while it lasts",
  "A successful offer of a service instance leaves one readable marker per quality it serves, made after stale markers of that instance and quality were cleared and carrying a number no other offer of the process uses; a failed offer leaves neither a marker nor an entry, and an instance that is offered already is refused. Ending the offer removes its markers, all of them or only the one for the lower quality as asked for, exactly once, and ending an offer that does not exist fails. A marker that cannot be removed at the end of its offer ends the process rather than staying unnoticed.",
  ["fault_sequences", "histories"], "every outcome of every file-system operation, every quality, offers that exist already or not",
  "The markers are all other processes see of an offer; which of them remain after a failure half way is decided by the cleanup on each error path, which tests hardly reach.",
  ["score/mw/com/impl/bindings/lola/service_discovery/flag_file.cpp", "score/mw/com/impl/bindings/lola/service_discovery/client/service_discovery_client.cpp"],
  ["marker files of the offers", "table of the offers of this process"], ["FlagFile::Make, ~FlagFile", "ServiceDiscoveryClient::OfferService, StopOfferService"], ["files created and removed", "result of the offer"],
  AI, "making, moving and ending a marker are interpreted with both outcomes of every file-system call on a directory of one entry of each kind, tracking which paths exist at the end; offering and ending run on a concrete table of offers with each quality and both outcomes of each marker, and must end with exactly the markers and entries of the specification, used under the lock",
  note="The directory is taken to hold at most one entry; the file system itself and processes that tamper with the markers are outside.")

P("P26", "Searches find exactly what is offered",
  "Starting to look for a service reports at once the offers of the asked quality that are there, and afterwards the handler is told exactly when the matching offers have changed, with all that match now; looking once reports the same set. An offer that is made or ended while a search is being set up or runs is not missed, and one kind of offer, instance or quality never stands for another. A search that ended is told nothing more and its resources are released, while other searches of the same service are not affected.",
  ["histories", "schedules"], "every outcome of looking at the file system, batches of up to two events on worlds of up to two searches for specific and any instances, with every relation between them",
  "What a search reports depends on the history of offers, searches and events in between; tests replay a few of these histories and cannot place an offer between two steps of the setup.",
  ["score/mw/com/impl/bindings/lola/service_discovery/client/service_discovery_client.cpp", "score/mw/com/impl/bindings/lola/service_discovery/flag_file_crawler.cpp", "score/mw/com/impl/bindings/lola/service_discovery/known_instances_container.cpp"],
  ["known instances per quality", "searches, watches and their relation"], ["ServiceDiscoveryClient::StartFindService, StopFindService, FindService", "worker of ServiceDiscoveryClient", "FlagFileCrawler::CrawlAndWatch, Crawl", "KnownInstancesContainer"], ["calls of the handler", "watches added and removed"],
  AI, "the table of known instances is interpreted on concrete contents; looking at directories on one entry with every outcome of each file-system call, where each watch must precede reading; the worker is captured when the service discovery is built and run on concrete worlds and event batches, start and end of searches on the same worlds, and the tables, handler calls and watches are compared with a reference model",
  note="Batches hold at most two events and directories one entry. Known finding: an offer that appears and disappears within one batch of events stays known (see known_findings.json).")

P("P27", "Offering a service is all or nothing, and ends completely",
  "Offering a service makes all its events, fields and methods ready before the service becomes findable; if any step fails, all that was prepared is taken back, the error is returned and nothing is findable. Offering what is offered already changes nothing. Ending the offer, also by destroying or overwriting the object, first makes the service unfindable and then stops every element; its memory is built anew or removed only while no other process uses it, and is reused otherwise.",
  ["fault_sequences", "histories"], "every outcome of every step of the binding, services of up to two events, two fields and a method, every state of the usage marker, every quality",
  "Which step of an offer fails, and whether a consumer still uses the memory of the last offer, depends on history and on other processes; a step not taken back shows only in the next offer.",
  ["score/mw/com/impl/skeleton_base.cpp", "score/mw/com/impl/generic_skeleton.cpp", "score/mw/com/impl/traits.h", "score/mw/com/impl/bindings/lola/skeleton.cpp", "score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp"],
  ["offered or not, per service and element", "usage marker and its lock", "shared memory of the service"], ["SkeletonBase::OfferService, StopOfferService", "Skeleton::PrepareOffer, PrepareStopOffer", "destructor and move assignment of skeletons"], ["calls of the binding in order", "result of the offer", "files removed"],
  AI, "offering and ending run on services of concrete elements with both outcomes of each binding call; the order of calls, the state left and the result of each path are compared with the specification; preparing and unpreparing the offer run for every outcome of locking the usage marker and must create, reopen, clean up or remove the memory accordingly; ending the offer must be on every path of the destructor and the move assignment of each kind of skeleton",
  note="Elements without a binding and a missing message passing end the process by design; two events, two fields and one method stand for any number.")

P("P28", "Only the configured users get at the memory of a service",
  "The memory a provider creates can be read, and the control memory written, exactly by the consumers configured for the level it belongs to; nobody but the provider can write the data. Without configured consumers everybody gets this access, under strict permissions nobody does. A consumer uses only the memory of its own level, made by the providers configured for that level, and opens the data read-only; the memory of method calls is shared by the calling user and the provider alone.",
  ["inputs", "programs"], "every quality, consumers and providers configured for none, one or both levels with up to three users each, strict permissions or not, both outcomes of each creation",
  "Who gets access is a matter of every combination of configured users, level and strictness; a user too many goes unnoticed by every test that checks that the right users can work.",
  ["score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp", "score/mw/com/impl/bindings/lola/proxy.cpp", "score/mw/com/impl/bindings/lola/skeleton.cpp"],
  ["configured consumers and providers", "memory objects of an instance"], ["SkeletonMemoryManager::CreateSharedMemory, OpenExistingSharedMemory, RemoveSharedMemory", "Proxy::Create, SetupMethods", "Skeleton::OnServiceMethodsSubscribed"], ["names, sizes and access rights of memory created", "owners accepted when opening"],
  AI, "creating, reopening, removing and opening memory are interpreted on concrete configurations with both outcomes of every creation; names, sizes, access rights and accepted owners handed to the shared memory factory are compared with those the configuration grants",
  note="A fixed set of configurations; what the factory does with the rights is P15. The control memory of a level is writable by its consumers by design.")

P("P29", "What gateways send each other arrives complete, once and in order",
  "A message one gateway sends is received by the other with the same kind, number and content, or not at all, however the stream splits it, and nothing received is ever written beyond the memory meant for it. A request succeeds exactly if the other side has acknowledged that very request, and every received request is acknowledged and handled once; messages sent at the same time do not mix. A thread that waits for an acknowledgement, a message or the end never misses it, so that shutting down always ends.",
  ["inputs", "fault_sequences", "schedules"], "every kind of message, announced sizes up to and beyond the buffer, every split of the stream and failure at every point, every state of the pending requests",
  "Splits of the stream, announced sizes and the moment between looking and waiting are chosen by the network and the scheduler; an address sent as raw bytes works in every test that stays within one process.",
  ["score/mw/com/gateway/transport_layer/sample/message_framer.cpp", "score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp", "score/mw/com/gateway/transport_layer/sample/pending_request_tracker.cpp", "score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.h", "score/mw/com/gateway/transport_layer/sample/messages/serialization.h", "score/mw/com/gateway/transport_layer/sample/messages/transport_message.h"],
  ["stream and buffers", "pending requests", "queue of received messages"], ["MessageFramer::SendMessage, ReceiveMessage", "PendingRequestTracker", "BidirectionalTransport::SendRequest, HandleIncomingMessage, Shutdown", "members each message sends"], ["bytes sent and received", "message handed out", "result of a request"],
  AI, "sending and receiving are interpreted with every split and failure of the stream on concrete kinds and sizes: the bytes moved, the layout of the header learned from sending, the message handed out and the result must agree; the members each message hands to the serialization are compared with those it has, and types sent as raw bytes may not hold addresses; the tracker runs on concrete tables of requests, requests and received messages with every outcome of each step; every wake-up must have taken the lock of the thread it wakes",
  note="The serialization of single strings and lists is not followed byte by byte; setting up the connection is not covered. The other gateway is taken to follow the same protocol, except for sizes and kinds, which may be anything.")
