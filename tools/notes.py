"""technique and level note per property, and the properties that are not claimed"""
S = "Seeded search, not exhaustive: it shows the absence of violations on the simulated schedules and fault sequences of a run (counts in the evidence file). "
T = "Trusts the fiber scheduler and simulated primitives (checked by same-seed re-execution), the network/timer/storage stand-ins, and the oracle. "
R = S + T + "Memory accesses of the real code are instrumented, so threads interleave inside critical paths; weak memory orderings beyond sequential consistency are not simulated."
NOTES = {
    "C01": ("whole-cluster simulation, leadership claims per term recorded from events, appends and outgoing traffic", R),
    "C02": ("whole-cluster simulation, every apply compared with one global sequence, leaders checked for completeness", R),
    "C03": ("whole-cluster simulation, per-server apply order checked against the log and installed snapshots", R),
    "C04": ("whole-cluster simulation, log images compared at every write and send", R),
    "C05": ("whole-cluster simulation with crashes at every write, saved votes and terms compared with what was answered", R),
    "C06": ("whole-cluster simulation, bounded virtual-time progress once faults stop", R + " The bound is 20 s of virtual time, 25 to 100 election timeouts (measured: below 10)."),
    "C07": ("whole-cluster simulation, exits, exceptions, hangs, memory errors (quarantining heap) reported", R),
    "C08": ("whole-cluster simulation with small snapshots and blocks, snapshot bytes, membership and state compared", R),
    "C09": ("whole-cluster simulation with joins and removals, configuration entries checked as they are appended and installed", R),
    "C10": ("whole-cluster simulation with joins and removals under faults, then bounded completion in a healthy phase", R),
    "C11": ("whole-cluster simulation with pre-vote, every term increase checked against answers delivered in the round", R),
    "C12": ("whole-cluster simulation, submissions tracked from call to apply and answer", R),
    "C13": ("whole-cluster simulation, pre-commit/commit/rollback callbacks checked against the log image", R),
    "C14": ("whole-cluster simulation with isolated leaders, is_leader and submissions probed against responses heard", R),
    "C15": ("the real log store on a simulated file system, every answer compared with a list model across reopenings and thread interleavings", S + T),
    "C16": ("the real log store on a simulated file system with failing and short operations and full disks, list model with allowed outcomes", S + T),
    "C23": ("the real log store on a simulated file system, process killed at any write, reopened store compared with the allowed outcomes", S + T + "Power loss (writes lost or reordered by the operating system) is outside the property: the code never syncs."),
    "C17": ("the real async_result with seeded preemption at every memory access, lock and wait, spurious wake-ups injected", R),
    "C18": ("the real asio service on a simulated kernel and clock, executions matched against schedulings and cancellations", R),
    "C19": ("the real asio rpc client, listener and sessions on simulated TCP with fragmentation, resets and refusals, requests and responses compared field by field", R),
    "C20": ("the real asio loggers on a simulated kernel and file system, log files compared with the lines handed in", R),
    "C21": ("whole-cluster simulation destroying servers at arbitrary points, and the real asio service on a simulated kernel stopped at arbitrary points", R),
    "C24": ("whole-cluster simulation, an undisturbed period after arbitrary faults: no vote requests, bounded time from submission to application on all members, bounded failover", R + " Message delays in the undisturbed period are at most 1.7 ms, the bound for applying is 25 ms (measured: below 8 ms)."),
    "C25": ("whole-cluster simulation, events compared with leadership, terms answered and application progress", R),
}
NA = [
    dict(property="C22", reason="pure serialisation functions: no schedule, clock, I/O or fault for a simulator to decide"),
]
for _p in ("C15", "C16", "C17", "C18", "C19", "C20"):
    if _p not in NOTES:
        NA.append(dict(property=_p, reason="harness under construction"))
