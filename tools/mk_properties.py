#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording is easy to edit and validate)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe_at=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe_at: a["observe_at"] = [x.strip() for x in observe_at.split(";")]
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

PB = "iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/"
MP = "iceoryx_posh/source/mepoo/"
prop("P01", "A received sample is exactly what was sent and stays so while held",
     "Whatever a subscriber, server or client takes is byte for byte one message that some peer published on that service after filling it completely, and it does not change until the taker gives it back. A message that is loaned, queued, kept as history or held by any reader is never handed out again for writing, and nothing the writer wrote before sending can be missing for the reader.",
     ["schedules", "histories", "crash_points"], "for every interleaving of loans, writes, publishes, takes, releases, port creations and deaths in all processes, each mapping the memory at its own address, and every memory ordering the language allows",
     "A unit test runs one lucky interleaving on strongly ordered hardware inside one address space; a chunk reused too early or a missing ordering constraint needs a particular schedule of several processes to show.",
     [MP + "shared_chunk.cpp", MP + "mem_pool.cpp", MP + "memory_manager.cpp", PB + "chunk_sender.inl", PB + "chunk_receiver.inl", "iceoryx_hoofs/memory/include/iox/detail/relative_pointer.inl"],
     [("reference-counted shared chunk", "SharedChunk / ChunkManagement::m_referenceCounter"), ("loan, fill, publish", "ChunkSender::tryAllocate, send"), ("take, hold, release", "ChunkReceiver::tryGet, release"), ("per-process address translation", "RelativePointer / PointerRepository")],
     "payload bytes, user header and chunk header read by the taker; happens-before of every access to payload memory")
prop("P02", "Samples arrive in send order, once, and are only lost to overflow",
     "From the moment a subscriber is connected, the samples of each publisher reach it in the order they were sent, none twice and none invented. A sample is missing only when the subscriber's queue overflowed; then it is always the oldest queued sample that is given up, never a newer one, and the subscriber can learn that it lost something.",
     ["schedules", "histories", "configurations"], "for every interleaving of several publishers sending, subscribers taking and releasing with any queue capacity, and of connects and disconnects happening meanwhile",
     "Order and loss depend on the interleaving of concurrent push, pop and overflow, which a test samples a handful of times.",
     [PB + "chunk_distributor.inl", PB + "chunk_queue_pusher.inl", PB + "chunk_queue_popper.inl", PB + "variant_queue.inl", "iceoryx_hoofs/concurrent/buffer/include/iox/detail/mpmc_lockfree_queue.inl", "iceoryx_hoofs/concurrent/buffer/include/iox/detail/spsc_sofi.inl"],
     [("delivery to all queues", "ChunkDistributor::deliverToAllStoredQueues"), ("overflowing queue", "VariantQueue::push / pop"), ("lost-chunk flag", "ChunkQueuePopper::hasLostChunks")],
     "sequence of (publisher, sequence number) taken by each subscriber against the sequence of completed publishes")
prop("P03", "A late joiner gets exactly the newest history, then the live stream",
     "A subscriber that asks for history receives, in order, the most recent samples the publisher had sent before the connection (as many as requested, kept and fitting), followed without gap, repetition or reordering by the samples sent afterwards. Samples are kept as history also while the publisher is not offering.",
     ["schedules", "histories", "configurations"], "for every interleaving of connecting with concurrent sends, and every history capacity, history request and queue capacity",
     "The hand-over from history to live data is a race between the daemon adding the queue and the publisher sending.",
     [PB + "chunk_distributor.inl", PB + "chunk_sender.inl", "iceoryx_posh/source/popo/ports/publisher_port_user.cpp", "iceoryx_posh/source/popo/ports/publisher_port_roudi.cpp"],
     [("history hand-over", "ChunkDistributor::tryAddQueue, addToHistoryWithoutDelivery"), ("sending while not offered", "PublisherPortUser::sendChunk, ChunkSender::pushToHistory")],
     "first samples taken by a new subscriber against the publisher's send log")
prop("P04", "A blocking producer loses nothing and never blocks forever",
     "When consumer and producer both chose to block, no message is ever dropped for a connected consumer, and the producer returns as soon as the consumer makes room. It also returns when the consumer unsubscribes or dies, when the producer stops offering, or when its process is asked to shut down.",
     ["schedules", "crash_points", "histories"], "for every interleaving of a sending producer with consumers that take, stall, unsubscribe, crash or are removed, and with shutdown of producer or daemon",
     "The wait loop re-checks a queue set that another process changes under it; the interesting schedules involve a death or a disconnect exactly while the producer waits.",
     [PB + "chunk_distributor.inl", "iceoryx_posh/source/roudi/port_manager.cpp", "iceoryx_posh/source/roudi/process_manager.cpp"],
     [("waiting delivery", "ChunkDistributor::deliverToAllStoredQueues"), ("unblocking on shutdown", "PortManager::unblockProcessShutdown, unblockRouDiShutdown")],
     "completion of send calls in simulated time, sequence taken by blocking consumers")
prop("P05", "Every memory chunk has one owner and always returns to its pool",
     "A chunk is either free or owned, is never given to two requesters at once, and goes back to its pool as soon as the last holder (loan, queue, history, reader) gives it up. When nobody holds messages any more, every pool is full again, and a request for memory fails only when no chunk of the fitting pool is free.",
     ["schedules", "histories", "fault_sequences"], "for every interleaving of allocation, publication, overflow, take, release, unsubscribe and port destruction, including allocation failures",
     "Leaks and double frees arise from particular interleavings and rare error branches, and only show as slow exhaustion.",
     [MP + "mem_pool.cpp", MP + "memory_manager.cpp", MP + "shared_chunk.cpp", MP + "shm_safe_unmanaged_chunk.cpp", "iceoryx_hoofs/concurrent/buffer/source/mpmc_loffli.cpp", "iceoryx_posh/include/iceoryx_posh/internal/popo/used_chunk_list.inl"],
     [("lock-free free list", "MpmcLoFFLi::push, pop"), ("pool accounting", "MemPool::getChunk, freeChunk"), ("chunks in use by a port", "UsedChunkList::insert, remove, cleanup")],
     "number of chunks obtainable from each pool at quiescence; identity of chunks handed out concurrently")
prop("P06", "A crashing application takes nothing and nobody down with it",
     "If an application dies at any instruction, the daemon and all other applications keep working, and within a bounded time everything it owned is gone or free again: its ports, its service offers, the messages it held or queued and its name, so that it can be started again under the same name. Messages it had published remain valid for their readers.",
     ["crash_points", "schedules", "histories"], "for every instruction at which a process may be killed, in any role, with any state of its peers, and any number of crashes and restarts",
     "A test can kill a process at a few chosen points; the guarantee is about every point, including the middle of every shared data structure update.",
     ["iceoryx_posh/source/roudi/process_manager.cpp", "iceoryx_posh/source/roudi/port_manager.cpp", "iceoryx_posh/source/roudi/process.cpp", "iceoryx_posh/include/iceoryx_posh/internal/popo/used_chunk_list.inl", "iceoryx_posh/source/mepoo/shm_safe_unmanaged_chunk.cpp"],
     [("monitoring and cleanup", "ProcessManager::monitorProcesses, removeProcess"), ("port destruction", "PortManager::deletePortsOfProcess"), ("crash-safe chunk bookkeeping", "UsedChunkList, ShmSafeUnmanagedChunk")],
     "liveness of survivors, free chunks, port and service lists after the monitoring time-out")
prop("P07", "A living process is never evicted, a dead one always is",
     "With monitoring on, an application whose keep-alive thread still gets to run within the documented time-out is never removed by the daemon, whatever the load, the delays below the time-out, and the number of other processes. One that has died or stopped beating is removed after the time-out and within a bounded number of monitoring rounds.",
     ["schedules", "fault_sequences", "histories"], "for every delay and stall below (respectively above) the time-out of any thread, and every interleaving of registration, heartbeats, monitoring and removal",
     "Depends on real time and on when threads get to run; tests use one or two timings.",
     ["iceoryx_posh/source/runtime/heartbeat.cpp", "iceoryx_posh/source/roudi/process_manager.cpp", "iceoryx_posh/source/runtime/posh_runtime_impl.cpp", "iceoryx_hoofs/concurrent/sync_extended/include/iox/detail/periodic_task.inl"],
     [("heartbeat", "Heartbeat::beat, elapsed_milliseconds_since_last_beat"), ("monitoring round", "ProcessManager::monitorProcesses"), ("keep-alive timer", "PeriodicTask")],
     "set of registered processes over simulated time")
prop("P08", "Connections and service discovery converge to what is offered",
     "Once offers, subscriptions, connects and their opposites stop changing, then after a bounded number of discovery rounds exactly the compatible pairs are connected, every party sees the corresponding state, and a service search returns exactly the services that are offered at that time for that messaging pattern. This holds whichever side came first, and however often they toggled, were destroyed or crashed.",
     ["schedules", "histories", "configurations", "crash_points"], "for every order and interleaving of offer, stop-offer, subscribe, unsubscribe, connect, disconnect, creation, destruction and death, relative to the discovery rounds, and for every combination of compatible and incompatible options",
     "The daemon polls state that applications flip at any time; toggles between two polls and partial handshakes are schedule dependent.",
     ["iceoryx_posh/source/roudi/port_manager.cpp", "iceoryx_posh/source/roudi/service_registry.cpp", "iceoryx_posh/source/runtime/service_discovery.cpp", "iceoryx_posh/source/popo/ports/subscriber_port_multi_producer.cpp", "iceoryx_posh/source/popo/ports/publisher_port_roudi.cpp", "iceoryx_posh/source/popo/ports/client_port_roudi.cpp", "iceoryx_posh/source/popo/ports/server_port_roudi.cpp"],
     [("discovery round", "PortManager::doDiscovery"), ("port state machines", "*::tryGetCaProMessage, dispatchCaProMessageAndGetPossibleResponse"), ("service registry topic", "ServiceRegistry, PortManager::publishServiceRegistry")],
     "subscription/connection state, hasSubscribers/hasClients, findService results, actual delivery at quiescence")
prop("P09", "Every response reaches the client whose request it answers, once",
     "A request a client sent is delivered to the connected server at most once and in that client's order, and is missing only because of queue overflow or disconnection. The response is delivered only to the client that sent that request, carries that request's sequence number, and is never delivered twice, to somebody else or to a later user of the same slot.",
     ["schedules", "histories", "crash_points"], "for every interleaving of several clients and a server, with clients disconnecting, dying, reconnecting or being replaced while their requests are being processed",
     "Routing uses a remembered queue position that may have been reassigned meanwhile; that needs a disconnect in the middle of a request.",
     ["iceoryx_posh/source/popo/ports/client_port_user.cpp", "iceoryx_posh/source/popo/ports/server_port_user.cpp", PB + "chunk_distributor.inl", PB + "chunk_sender.inl", "iceoryx_posh/source/popo/rpc_header.cpp"],
     [("routing of responses", "ServerPortUser::sendResponse, ChunkDistributor::getQueueIndex, deliverToQueue"), ("request identity", "RpcBaseHeader, RequestHeader, ResponseHeader")],
     "requests taken by the server and responses taken by each client against what was sent")
prop("P10", "No event is missed by a waiting WaitSet or Listener",
     "If data arrives, a trigger fires or an attached state becomes true, then a thread waiting on it wakes up, and whatever happened before or during the wait is reported by that or a following wait (for a listener: its callback runs afterwards). Nothing is reported that was not attached or did not happen (except once, when an attachment takes the place of a detached one whose notification was still pending), and timed waits and shutdown return in time.",
     ["schedules", "histories"], "for every interleaving of notifications, waits, time-outs, attach and detach operations in any number of threads and processes",
     "A lost wake-up needs the notification to fall into a window of a few instructions.",
     ["iceoryx_posh/source/popo/building_blocks/condition_listener.cpp", "iceoryx_posh/source/popo/building_blocks/condition_notifier.cpp", "iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl", "iceoryx_posh/source/popo/listener.cpp", PB + "chunk_queue_pusher.inl"],
     [("notify and wait", "ConditionNotifier::notify, ConditionListener::waitImpl"), ("wait set", "WaitSet::waitAndReturnTriggeredTriggers"), ("reactor thread", "Listener::threadLoop"), ("data notification", "ChunkQueuePusher::push")],
     "return of wait calls and callback invocations in simulated time")
prop("P11", "A detached event or destroyed endpoint is never called back again",
     "Once an event is detached, or the object it was attached to or the listener itself is destroyed, and that call has returned, its callback does not run any more (only a callback that detaches itself runs to its end) and no freed object is touched, in this or another process. Attaching and detaching from any thread, also from inside a callback of the same listener, never deadlocks and never affects other attachments.",
     ["schedules", "histories"], "for every interleaving of attach, detach, destruction, triggering and callback execution",
     "The race is between the reactor thread having collected an event and another thread detaching it.",
     ["iceoryx_posh/source/popo/listener.cpp", "iceoryx_posh/include/iceoryx_posh/internal/popo/listener.inl", "iceoryx_posh/source/popo/trigger_handle.cpp", "iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl", "iceoryx_hoofs/concurrent/sync_extended/include/iox/smart_lock.hpp"],
     [("event bookkeeping", "Listener::removeTrigger, internal::Event_t"), ("trigger handles", "TriggerHandle::reset, trigger")],
     "callback invocations relative to completed detach and destructor calls; access to released memory")
prop("P12", "Concurrent queues and free lists never lose, invent or reorder items",
     "Each of the concurrent containers (multi- and single-producer queues with and without overflow or resizing, free lists, lock-free buffers) behaves for all its users as if its operations happened one after another: every item comes out once, in order, a full or empty report is only given when that was true, and an overflow gives back the oldest item.",
     ["schedules", "histories", "configurations"], "for every interleaving of the permitted number of producers and consumers, every capacity, index wrap-around and resize, and every memory ordering the language allows",
     "Linearizability is a statement about all interleavings; the stress tests see only those the machine happens to produce.",
     ["iceoryx_hoofs/concurrent/buffer/include/iox/detail/mpmc_lockfree_queue.inl", "iceoryx_hoofs/concurrent/buffer/include/iox/detail/mpmc_resizeable_lockfree_queue.inl", "iceoryx_hoofs/concurrent/buffer/include/iox/detail/mpmc_lockfree_queue", "iceoryx_hoofs/concurrent/buffer/include/iox/detail/spsc_sofi.inl", "iceoryx_hoofs/concurrent/buffer/include/iox/detail/spsc_fifo.inl", "iceoryx_hoofs/concurrent/buffer/source/mpmc_loffli.cpp"],
     [("index queue", "MpmcIndexQueue::push, pop, popIfFull"), ("safely overflowing fifo", "SpscSofi::push, pop"), ("free list with ABA counter", "MpmcLoFFLi")],
     "history of operations with results, checked against a sequential model")
prop("P13", "Locks exclude, semaphores count and wake-ups are not lost",
     "At most one holder is inside a lock at a time, whatever was written inside is visible to the next holder, and every waiter eventually gets it. A semaphore never admits more waiters than posts, never loses a post and a timed wait neither returns early without a post nor hangs; if the owner of a robust lock dies, the next one gets it together with the notice that the state may be inconsistent.",
     ["schedules", "crash_points", "fault_sequences"], "for every interleaving of threads and processes, with owners dying and waits interrupted or timing out",
     "Mutual exclusion and wake-ups are all-schedules statements, and owner death needs a crash inside the critical section.",
     ["iceoryx_hoofs/posix/sync/source/mutex.cpp", "iceoryx_hoofs/concurrent/sync_extended/source/spin_lock.cpp", "iceoryx_hoofs/concurrent/sync_extended/source/spin_semaphore.cpp", "iceoryx_hoofs/posix/sync/source/unnamed_semaphore.cpp", "iceoryx_hoofs/posix/sync/source/named_semaphore.cpp", "iceoryx_hoofs/posix/design/include/iox/detail/semaphore_interface.hpp", "iceoryx_hoofs/concurrent/sync_extended/include/iox/smart_lock.hpp"],
     [("locks", "mutex, SpinLock, smart_lock"), ("semaphores", "UnnamedSemaphore, NamedSemaphore, SpinSemaphore"), ("owner death", "mutex::lock_impl, make_consistent")],
     "occupancy of critical sections, balance of posts and waits, return times")
prop("P14", "Start-up, restart and shutdown always complete and leave nothing behind",
     "Applications and the daemon may start in any order: an application waits for the daemon and then registers, and at most one daemon and one application of a given name run at a time. Orderly termination of any of them completes in bounded time without deadlock and removes its sockets, locks and shared memory, and a new daemon or application starts even if the previous one was killed and left such resources behind.",
     ["schedules", "crash_points", "histories", "fault_sequences"], "for every start order, every interleaving of registration with daemon start, stop, crash and restart, and every instruction at which a predecessor was killed",
     "Start-up races and leftovers of a kill at an arbitrary instruction are not covered by fixed start orders.",
     ["iceoryx_posh/source/roudi/roudi.cpp", "iceoryx_posh/source/runtime/ipc_runtime_interface.cpp", "iceoryx_posh/source/runtime/ipc_interface_creator.cpp", "iceoryx_posh/source/roudi/process_manager.cpp", "iceoryx_hoofs/posix/filesystem/source/file_lock.cpp", "iceoryx_hoofs/posix/ipc/source/posix_shared_memory.cpp", "iceoryx_hoofs/posix/ipc/source/unix_domain_socket.cpp"],
     [("registration handshake", "IpcRuntimeInterface::create, ProcessManager::registerProcess"), ("uniqueness", "FileLock"), ("shutdown", "RouDi::shutdown, PoshRuntimeImpl::~PoshRuntimeImpl")],
     "outcome and simulated duration of start and stop, objects left in the simulated file system")
prop("P15", "Failing system calls are reported, cleaned up and survivable",
     "When the operating system refuses or interrupts an operation (no descriptors, no memory, no space, name taken, interrupted call, full or missing peer socket), the operation either still succeeds or reports an error to its caller; it never hangs, never reports success without effect, and leaves no half-made object, descriptor or file behind. Once the cause is gone the same operation succeeds.",
     ["fault_sequences", "schedules"], "for every system call of every resource construction, transfer and destruction failing with any errno it may return, singly or repeatedly",
     "Failure branches are mostly unreachable for tests because the kernel cannot be told to fail a given call.",
     ["iceoryx_hoofs/posix/ipc/source/posix_shared_memory.cpp", "iceoryx_hoofs/posix/ipc/source/posix_shared_memory_object.cpp", "iceoryx_hoofs/posix/ipc/source/posix_memory_map.cpp", "iceoryx_hoofs/posix/ipc/source/unix_domain_socket.cpp", "iceoryx_hoofs/posix/ipc/source/named_pipe.cpp", "iceoryx_hoofs/posix/filesystem/source/file_lock.cpp", "iceoryx_hoofs/posix/filesystem/source/file.cpp", "iceoryx_hoofs/posix/sync/source/named_semaphore.cpp", "iceoryx_hoofs/posix/design/include/iox/detail/posix_call.inl"],
     [("wrapped system calls", "IOX_POSIX_CALL"), ("builders with roll-back", "*Builder::create")],
     "returned result, simulated kernel's table of descriptors, mappings and names")
prop("P16", "Local channels deliver whole messages, in order, once, to their receiver",
     "A message sent over any of the point-to-point channels used between processes (domain socket, named pipe, message queue) arrives whole, once, and in the order of sending, or the sender is told that it was not sent. Timed operations return within their time-out, and a channel object can be moved, closed and re-created without disturbing others.",
     ["schedules", "fault_sequences", "histories"], "for every interleaving of several senders with a receiver, full and empty channels, time-outs, and receivers that vanish and come back",
     "Depends on the interleaving of sender, receiver and time-out.",
     ["iceoryx_hoofs/posix/ipc/source/unix_domain_socket.cpp", "iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl", "iceoryx_hoofs/posix/ipc/source/named_pipe.cpp", "iceoryx_hoofs/posix/ipc/include/iox/detail/named_pipe.inl", "iceoryx_hoofs/posix/ipc/source/message_queue.cpp"],
     [("domain socket", "UnixDomainSocket::timedSend, timedReceive"), ("named pipe in shared memory", "NamedPipe::trySend, timedReceive"), ("message queue", "MessageQueue")],
     "messages received against messages acknowledged as sent")
prop("P17", "Reaching a configured limit is refused cleanly and is reversible",
     "Exceeding any configured maximum (ports, processes, subscribers per publisher, simultaneously loaned or held messages, condition variables, attachments, pool sizes) yields a reported refusal for that request only. Nothing existing is disturbed, nobody crashes, and after giving something back the request is granted again, however often that is repeated.",
     ["histories", "configurations", "schedules"], "for every sequence and interleaving of acquisitions and releases up to and beyond each limit, in several processes",
     "The interesting histories are long, cross several limits in a random order and repeat.",
     ["iceoryx_posh/source/roudi/port_pool.cpp", "iceoryx_posh/source/roudi/port_manager.cpp", PB + "chunk_sender.inl", PB + "chunk_receiver.inl", "iceoryx_posh/include/iceoryx_posh/internal/popo/used_chunk_list.inl", "iceoryx_posh/source/roudi/process_manager.cpp"],
     [("port pool", "PortPool::add*, FixedPositionContainer"), ("chunks in use", "UsedChunkList::insert"), ("process and heartbeat pool", "ProcessManager::addProcess")],
     "results of acquisition calls against a counting model")
prop("P18", "Daemon introspection tells the truth about a quiescent system",
     "Once the system has been quiet for a few introspection periods, the published introspection data on processes, ports with their connections, and memory pools agrees with the processes, ports, subscriptions and messages that really exist.",
     ["schedules", "histories", "crash_points"], "for every history of starts, stops, crashes, subscriptions and message traffic that led to the quiet state",
     "Introspection state is updated incrementally from many places; drift depends on the history.",
     ["iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/process_introspection.inl", "iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/port_introspection.inl", "iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/mempool_introspection.inl", "iceoryx_posh/source/roudi/port_manager.cpp"],
     [("introspection topics", "ProcessIntrospection, PortIntrospection, MemPoolIntrospection")],
     "last introspection samples against the simulated system's real population")
prop("P19", "Sequential building blocks match their documented contracts",
     "Containers, strings, optional and expected types, units, serialisation, command line parsing and relative pointers behave as documented for every argument and sequence of calls in a single thread.",
     ["inputs", "histories"], "for every argument and call sequence",
     "Unit tests sample arguments; the value space is unbounded.",
     ["iceoryx_hoofs/container/include/iox", "iceoryx_hoofs/vocabulary/include/iox", "iceoryx_hoofs/cli/source"],
     [("containers and vocabulary types", "vector, list, forward_list, string, optional, expected, variant")])
prop("P20", "Configuration and access rights are applied as configured",
     "The memory layout, access groups and options read from the command line and configuration files are the ones the daemon uses, and a process without the configured rights can not write into a segment.",
     ["inputs", "configurations"], "for every configuration file, command line and user/group setup",
     "Needs arbitrary configuration texts and real user accounts.",
     ["iceoryx_posh/source/roudi/roudi_config_toml_file_provider.cpp", "iceoryx_posh/source/roudi/roudi_cmd_line_parser.cpp", "iceoryx_posh/source/mepoo/mepoo_segment.cpp"],
     [("configuration", "TomlRouDiConfigFileProvider, CmdLineParser"), ("access control", "SegmentManager::getSegmentMappings, PosixAcl")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(here + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
