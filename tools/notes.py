_T = " Sampled seeds, not exhaustive; trusts the simulator (scheduler, simulated Linux calls, C++ memory-model approximation) in /verif/sim."
_S = "Whole-system simulation in one process: the real RouDi daemon, runtimes, ports, chunk management, shared-memory and IPC code run as simulated processes with private globals and separate shared-memory mappings; "
NOTES = {
    "P01": _S + "every payload access is tracked for happens-before and compared with a pattern by writer and readers; chunk addresses are checked for exclusive ownership." + _T,
    "P02": _S + "seeded schedules of concurrent publishers and subscribers (queue sizes, policies, late joiners, unsubscribes); received histories are checked for order, no duplicates, and losses only as the overflow policy allows." + _T,
    "P03": _S + "late joiners at arbitrary points of a publication; received prefix must be the newest history without a gap to the live stream." + _T,
    "P04": _S + "blocking and non-blocking publishers against slow, stopped, frozen, unsubscribing and dying consumers; blocking must lose nothing and end when the obstacle ends." + _T,
    "P05": _S + "chunk conservation: loans, held samples, queues and history are balanced against the pool's counters at the quiescent points and at the end of every run." + _T,
    "P06": _S + "applications are killed at seeded instruction-level points; survivors' integrity and progress, reclamation of ports, chunks and names, and restart under the same name are checked." + _T,
    "P07": _S + "stalled, slow and dying applications, forward clock jumps, full sockets; an application is only removed when its keep-alive really stayed away, and a dead one is removed within the bound." + _T,
    "P08": _S + "endpoints of all four kinds toggle, come and go, processes die and return; once quiet, states, traffic and service search must equal the reference matching." + _T,
    "P09": _S + "typed and untyped clients and servers exchange numbered requests and responses, toggle, come and go, are killed and restarted; histories are checked for order, addressee, sequence id, at-most-once and overflow-only losses." + _T,
    "P10": _S + "subscribers, servers, clients and user triggers fire at a WaitSet thread and a Listener, with timed waits, re-attachments, stalls and states that stay true; every notification must be seen in bounded time and nothing else be reported." + _T,
    "P11": _S + "several threads and running callbacks attach, detach, trigger, create and destroy event origins and listeners; no callback after the end of its attachment, no deadlock, no touch of freed memory, other attachments keep working." + _T,
    "P12": "Seeded random-walk and PCT schedules of the real container code at every atomic access, with weakly ordered loads and spurious weak-CAS failures, item conservation / FIFO / full / empty / integrity checked over the history, happens-before race detection on the items." + _T,
    "P13": "Seeded schedules of the real lock, semaphore, smart_lock and periodic-task code on simulated futex-level primitives; exclusion, visibility (happens-before), token balance, time-out and progress oracles." + _T,
    "P14": _S + "several RouDis and applications with colliding names are started, stopped, killed and restarted at arbitrary points of each other's start-up; at most one daemon and one owner per name at a time, no refusal without a rival, every survivor comes up and serves or is served. Plus the real FileLock code of several simulated processes at instruction-level crash points on a simulated file system." + _T,
    "P15": "Real RouDi, applications, builders and channels on simulated system calls that fail with the errors Linux documents, at seeded points of start-up and of operation: every failure is reported or survived, nobody hangs, no descriptor, mapping or name is left behind, the next attempt succeeds." + _T,
    "P16": "Several simulated client processes and a server over the real UnixDomainSocket, MessageQueue and NamedPipe code: messages intact, in order per sender, at most once, none acknowledged and lost, time-outs kept, senders and re-created servers coming and going, interrupted calls." + _T,
    "P17": _S + "several programs (one or two threads each) create and destroy ports and condition variables of every kind up to and beyond the configured maxima, are killed and restarted; loans, held messages, requests, responses, attachments and pools are taken to their limits; more programs than allowed are started. Every grant and refusal is compared with a counting model." + _T,
    "P18": _S + "observers of the process, port, subscriber-state and pool topics compare the latest samples with the living processes, the existing ports, their options and states, and the chunks that can really be loaned, after churn, kills, restarts and single changes in a silent system." + _T,
}
NOT_APPLICABLE = {
    "P19": "Purely sequential value semantics: no schedule, time, I/O, crash or peer for a simulator to vary; property-based testing or proof would be the right family.",
    "P20": "Parsing of configuration text and command lines is a sequential input space and access rights are enforced by the kernel (file permissions, ACLs), which the simulation replaces by a model; the deciding part would be a stub.",
}
for _i in range(1, 19):
    NOT_APPLICABLE.setdefault("P%02d" % _i, "Not claimed yet: scenario under construction.")
