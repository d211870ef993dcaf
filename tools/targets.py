"""What is built from which sources, and which simulations decide which property."""
RAFT_SRC = "buffer cluster_config peer raft_server raft_server_req_handlers raft_server_resp_handlers snapshot snapshot_sync_req srv_config".split()


def repo(names):
    return [("$REPO/src/%s.cxx" % n, True, []) for n in names]


def sim(names):
    return [("$SIM/%s.cxx" % n, False, []) for n in names]


BINARIES = {
    "sim_raft": dict(sources=repo(RAFT_SRC + ["fs_log_store"]) + sim(["rt", "tsan", "simfs", "cluster", "cluster_gen", "reg_raft", "main"])),
    "sim_full": dict(sources=repo(RAFT_SRC + ["fs_log_store"]) + [("$REPO/src/asio_service.cxx", True, ["-Dprocess_req=process_req_observed"])] + sim(["rt", "tsan", "cluster_gen", "full", "reg_full", "main", "simnet"]) + [("$SIM/simfs.cxx", False, ["-DSIM_KERNEL"]), ("$SIM/cluster.cxx", False, ["-DSIM_FULL"])]),
    "sim_async": dict(sources=sim(["rt", "tsan", "reg_async", "main"]) + [("$SIM/async.cxx", True, [])] + repo(["buffer"])),
    "sim_svc": dict(sources=repo(["buffer", "asio_service"]) + sim(["rt", "tsan", "simnet", "svc", "rpc", "reg_svc", "main"]) + [("$SIM/simfs.cxx", False, ["-DSIM_KERNEL"])]),
    "sim_store": dict(sources=repo(["buffer", "fs_log_store"]) + sim(["rt", "tsan", "simfs", "logstore", "reg_store", "main"])),
}

RAFT_REAL = ["raft_server (elections, pre-vote, replication, commit thread, snapshots, membership)", "peer", "cluster_config/srv_config/snapshot/snapshot_sync_req serialisation", "buffer", "async_result", "event_awaiter/locks (on simulated pthread primitives)", "fs_log_store with its files on the simulated file system (a quarter of the runs)", "asio_service: rpc clients, listener, sessions, timers (harness full)"]
RAFT_STUB = ["network and rpc_client (simulated messages, serialised per field; harness cluster)", "delayed_task_scheduler (virtual clock; harness cluster)", "kernel below the C library: epoll, timerfd, TCP, name resolution (harness full)", "state manager, state machine (in-memory durable images)", "log store (in-memory durable image, in the runs without fs_log_store)", "file system below the C library (runs with fs_log_store)", "std::random_device, clocks, threads, mutexes, condition variables (seeded scheduler)"]
RAFT_ASSUME = ["application (state machine, log store, state manager) behaves correctly; saved state, configuration and log writes are durable when the call returns", "crash-stop failures; messages are not corrupted", "processes start with a common initial membership; a joining server starts with the membership of the existing servers"]
CL_STATES = "hash of the abstract cluster state (per server: role, relative term, commit/apply lag, log length class, up/down, membership size) at commits, leader changes, crashes and partitions"
CL_RULE = "one evaluation is one simulated cluster execution of 1 to 6 servers generated from one seed (configuration, workload, fault plan, every scheduling and delay decision); it is distinct and non-trivial when its event hash, folded over every message, write, timer and fault, differs from all others of its worker"


def raft(focus="", **kw):
    d = dict(runs=[dict(bin="sim_raft", harness="cluster", share=0.8), dict(bin="sim_full", harness="full", share=0.2)], rule=CL_RULE + focus, states=CL_STATES, real=RAFT_REAL, stub=RAFT_STUB, assume=RAFT_ASSUME)
    d.update(kw)
    return d


PROPS = {"C%02d" % i: raft() for i in list(range(1, 15)) + [21, 24, 25]}

ST_RULE = "one evaluation is one simulated history of two file log stores (4 to 26 operations: appends, overwrites, packs between the stores, compactions, reopenings with other buffer sizes, queries%s) generated from one seed, every answer compared with a list model; it is distinct and non-trivial when its event hash, folded over every file operation, scheduling decision and fault, differs from all others of its worker"
ST_STATES = "hash of (operation, log length class, buffer size, number of model states still possible, failure flag, compacted or not) before every operation"
ST_REAL = ["fs_log_store and its read buffer", "buffer", "log_entry serialisation", "libstdc++ file streams"]
ST_STUB = ["file system (in-memory files below the C library's calls)", "threads, mutexes (seeded scheduler)"]


def store(extra, assume):
    return dict(runs=[dict(bin="sim_store", harness="logstore", share=1)], rule=ST_RULE % extra, states=ST_STATES, real=ST_REAL, stub=ST_STUB, assume=assume)


PROPS["C15"] = store(", concurrent queries and appends", ["no file operation fails", "operations other than queries and appends are issued one at a time"])
PROPS["C16"] = store(", with failing or short file operations and a full disk", ["a failed file operation changes nothing or writes a prefix", "after an exception the caller may go on or reopen"])
PROPS["C23"] = store(", with the process killed at any file operation", ["the operating system survives: what was written to a file is there after the process died"])
PROPS["C17"] = dict(runs=[dict(bin="sim_async", harness="async", share=1)],
    rule="one evaluation is one simulated execution of 3 to 14 asynchronous results, each with one setter, at most one handler and up to three waiting threads at seeded times, preempted at memory accesses, lock operations and waits; it is distinct and non-trivial when its event hash, folded over every scheduling decision, differs from all others of its worker",
    states="hash of (value type, constructor, registration, times, error, handler behaviour, number of waiters, handler before or after the end of set_result)",
    real=["async_result"], stub=["threads, mutexes, condition variables (seeded scheduler with spurious wake-ups)"],
    assume=["a result is set once, at most one handler is registered", "every thread holds a reference to the result while it uses it"])

SV_REAL = ["asio_service (worker threads, timers, loggers, stop)", "asio itself (reactor, timer queue, sockets)", "delayed_task/timer_task", "libstdc++ file streams"]
SV_STUB = ["kernel below the C library: epoll, eventfd, timerfd, TCP sockets, name resolution, files", "clocks, threads, mutexes, condition variables (seeded scheduler with spurious wake-ups)", "std::thread::hardware_concurrency (seeded)"]
SV_RULE = "one evaluation is one simulated execution of the asio service with 1 to 4 worker threads, up to 6 tasks and 3 loggers used by other threads at seeded times (schedule, cancel, reschedule, log lines, wall clock jumps), stopped 1 to 3 times and destroyed; it is distinct and non-trivial when its event hash, folded over every system call, scheduling decision and fault, differs from all others of its worker"
SV_STATES = "hash of (operation, times the task was scheduled and ran so far, pending or not, worker threads) before every operation, and of the stop duration"


def svc(assume):
    return dict(runs=[dict(bin="sim_svc", harness="svc", share=1)], rule=SV_RULE, states=SV_STATES, real=SV_REAL, stub=SV_STUB, assume=assume)


PROPS["C18"] = svc(["one task object is scheduled and cancelled by one thread at a time", "the service is not stopped while the delay passes", "tasks are released before the service"])
PROPS["C20"] = svc(["log files can be written", "loggers may be used after the service was stopped, but what is logged then need not be written"])
PROPS["C19"] = dict(runs=[dict(bin="sim_svc", harness="rpc", share=1)],
    rule="one evaluation is one simulated execution of 1 to 4 rpc clients and 1 or 2 listening servers exchanging 2 to 30 requests (also concurrent and chained ones) over simulated TCP with seeded fragmentation, window sizes, delays, refusals, resets, failing accepts, sockets and name lookups, and servers that are killed and come back; it is distinct and non-trivial when its event hash, folded over every system call, scheduling decision and fault, differs from all others of its worker",
    states="hash of (requests open, done, failed; connections; last fault) at every completion",
    real=["asio rpc client, listener and sessions", "asio itself (reactor, sockets, resolver)", "buffer, req_msg/resp_msg/log_entry framing", "async results of the handlers"],
    stub=["kernel below the C library: epoll, eventfd, timerfd, TCP sockets, name resolution, files", "raft_server::process_req (produces seeded responses, errors and delays)", "clocks, threads, mutexes, condition variables (seeded scheduler)"],
    assume=["TCP delivers the bytes of a connection in order and unaltered, or breaks the connection", "a client object outlives its requests"])
_a, _b = raft(), svc([])
PROPS["C21"] = dict(runs=[dict(bin="sim_raft", harness="cluster", share=0.5), dict(bin="sim_full", harness="full", share=0.15), dict(bin="sim_svc", harness="svc", share=0.35)], rule=CL_RULE + "; or " + SV_RULE, states=CL_STATES + "; " + SV_STATES, real=RAFT_REAL + SV_REAL, stub=RAFT_STUB + SV_STUB, assume=RAFT_ASSUME + ["tasks are released before the service they were scheduled with"])
