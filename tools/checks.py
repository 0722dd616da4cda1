"""What each check runs: scenarios (executable, scenario name, share of the search time) and how it is described."""
REAL = ["the repository's own sources, compiled unchanged from the working tree with the compiler's thread-access instrumentation",
        "libstdc++, libevent, c-ares and protobuf where the scenario reaches them"]
STUB = ["threads' scheduling, clocks, timers' wake-ups, sockets, epoll, pipes, entropy and allocation placement (simulated)"]
ASSUME = ["sampled, not exhaustive: a clean batch is evidence for the schedules and faults explored",
          "interleavings are sequentially consistent; weaker memory orders are covered by a happens-before race detector only"]

CHECKS = {
    "C05": {
        "scenarios": [{"exe": "core", "name": "circular_buffer"}],
        "workload": "1-4 producer threads adding to a queue of 1-5 places, one consumer peeking, consuming and clearing, threads stalled at random points, freed blocks reused at once in half of the runs",
        "oracle": "recorded history against a bounded FIFO: each accepted element comes out exactly once, intact, in order for non-overlapping adds; a refusal needs an instant during the call at which the queue may have been full; capacity is restored after draining",
        "quick_s": 30,
    },
}
CHECKS["C05"]["scenarios"].append({"exe": "core", "name": "atomic_ptr", "weight": 0.25})
CHECKS.update({
    "C08": {
        "scenarios": [{"exe": "core", "name": "partial_write", "weight": 2}, {"exe": "core", "name": "span_stream", "weight": 2},
                      {"exe": "core", "name": "consume", "weight": 1}],
        "workload": "gathered writes of 1-4 sources (arrays of up to 2600 pieces, chained blocks, chains of chains, the span queue with concurrent producers) over a simulated socket with tiny to large buffers",
        "oracle": "reference byte string: accepted bytes + rest of the sources = input after every call, truthful result, error exactly when the connection broke, receiver's bytes equal the input; spans whole, once and counted",
    },
    "C10": {
        "scenarios": [{"exe": "core", "name": "ids", "weight": 6}, {"exe": "recorder", "name": "spans"}, {"exe": "stream", "name": "fork"}],
        "workload": "trees of forked processes (real forks, up to three generations) and threads drawing identifiers singly and in groups; threads starting spans with and without parents; a tracer whose process forks",
        "oracle": "all identifiers of all threads and processes distinct and non-zero, those of spans and of the traces they begin as well",
    },
    "C11": {
        "scenarios": [{"exe": "core", "name": "spin_lock"}],
        "workload": "2-4 threads taking the lock around unprotected state, threads stalled inside and outside",
        "oracle": "mutual exclusion, no lost update, happens-before race detection",
    },
    "C15": {
        "scenarios": [{"exe": "core", "name": "metrics"}],
        "workload": "1-4 threads dropping, sending and flushing, 1-2 reporters whose reports fail at random",
        "oracle": "conservation: successful reports + pending = dropped; the report message carries the count taken; observer totals exact",
    },
    "C16": {
        "scenarios": [{"exe": "core", "name": "clock_delta"}],
        "workload": "conversions between the clocks around forward and backward jumps of milliseconds to decades",
        "oracle": "clock difference within the readings around the call; conversions agree with both clocks and invert each other",
    },
    "C20": {
        "scenarios": [{"exe": "core", "name": "traversal"}],
        "workload": "1-3 threads traversing 0-8 indexes for up to 60 rounds, stopping at random",
        "oracle": "each index once per round, early exit honoured, first place not biased, random periods in range",
    },
    "C22": {
        "scenarios": [{"exe": "core", "name": "socket_owner"}],
        "workload": "1-2 threads creating, connecting, moving, assigning and destroying sockets while socket and connect calls fail",
        "oracle": "open simulated descriptors = owned descriptors; double or foreign closes reported by the simulated kernel",
    },
})
DELIVER_WORK = ("the whole streaming tracer (spans, queue, sending thread, event loop, resolver, connections) with 1-3 threads finishing spans, "
                "flushes and address changes, against up to 6 simulated satellites and a name server; then the faults stop")
DELIVER_FAULTS = "short, refused and failing writes, refused, unanswered and reset connections, stalled readers, bad, split or missing responses, lost, forged, late, truncated and erroneous name replies, exhausted descriptors, interrupted waits, stalled threads, clock jumps"
S, F = {"exe": "stream", "name": "shutdown"}, {"exe": "stream", "name": "fork"}
D, DJ = {"exe": "stream", "name": "deliver"}, {"exe": "stream", "name": "deliver_jumps"}
def stream_check(oracle, scenarios=(D,), **kw):
    return dict({"scenarios": [dict(s) for s in scenarios], "workload": DELIVER_WORK, "oracle": oracle}, **kw)
CHECKS["C01"] = stream_check("every span that satellites receive was finished, is intact, and was received once on one connection; in runs without faults every span that found room is received")
CHECKS["C02"] = stream_check("the bytes of each connection parse, byte by byte, as a prefix of one chunked report with the right host, header and whole spans; nothing follows the terminal chunk")
CHECKS["C03"] = stream_check("conservation: finished = sent + dropped + partly written + buffered, sent = spans wholly handed to the kernel, drop counts in reports + pending = dropped; checked at every quiet moment after the faults")
CHECKS["C04"] = stream_check("after the faults stop every connection slot is live and the buffer empty within a bound computed from the configured periods; spans finished then are accepted and delivered; no connection outlives its reconnect period and grace; finishing a span never blocks")
CHECKS["C06"] = stream_check("every flush judged against the recorded history: no success while a span finished before it is buffered, no failure before its timeout, no return much after the timeout or after the last span left the buffer", [D, dict(DJ, weight=0.5)])
CHECKS["C17"] = stream_check("after split, late, malformed, oversized, early, error or missing responses: no crash, no span resent, connections replaced within the bound, everything recovers")
CHECKS["C18"] = stream_check("the process survives, no signal is raised, and the tracer recovers and delivers afterwards")
CHECKS["C07"] = stream_check("shutdown returns within its timeout and truthfully, then no connection is opened or left; destruction at any moment ends within a bound, leaves no thread, descriptor or block of memory and touches no freed memory", [S])
CHECKS["C07"]["workload"] = DELIVER_WORK.replace("; then the faults stop", "") + "; spans, flushes, shutdowns and destruction at random moments in random orders, from several threads"
CHECKS["C09"] = stream_check("at each fork no thread, descriptor or connection of the tracer is open; parent and child restart, neither blocks, the child starts without its parent's spans and writes on none of its connections; both deliver, account for and flush their spans", [F])
CHECKS["C09"]["workload"] = DELIVER_WORK + "; 1-3 forks at random moments, each run going on as the parent or as the child, with up to two further tracers"
for _c, _w in (("C01", 0.25), ("C03", 0.4)):
    CHECKS[_c]["scenarios"].append(dict(F, weight=_w))
for _c, _w in (("C02", 0.25), ("C06", 0.3), ("C18", 0.25)):
    CHECKS[_c]["scenarios"].append(dict(S, weight=_w))
CHECKS["C15"]["scenarios"].append(dict(D, weight=0.6))
CHECKS["C15"]["workload"] += "; the counts and observers of the caller-driven, the background and the older asynchronous recorder and of the whole streaming tracer"
CHECKS["C16"]["scenarios"].append(dict(DJ, weight=2))
CHECKS["C16"]["workload"] += "; the whole streaming tracer under clock jumps"
CHECKS["C16"]["oracle"] += "; start times and durations of delivered spans against the simulated clocks"
CHECKS["C20"]["scenarios"].append(dict(D, weight=0.7))
CHECKS["C20"]["oracle"] += "; host header of each connection against the endpoint connected to"
CHECKS["C22"]["scenarios"].append(dict(D, weight=0.6))
CHECKS["C22"]["scenarios"].append(dict(S, weight=0.6))
CHECKS["C22"]["oracle"] += "; no descriptor left after a tracer is destroyed, nothing written on a closed connection"

R = lambda name, **kw: dict({"exe": "recorder", "name": name}, **kw)
N = lambda name, **kw: dict({"exe": "net", "name": name}, **kw)
CHECKS["C11"]["scenarios"] = [R("spans", weight=3), {"exe": "core", "name": "spin_lock", "weight": 1}]
CHECKS["C11"]["workload"] = "1-3 threads tagging, logging, naming, sampling, finishing, reading, injecting and starting children of 1-2 spans of both tracers with values of every kind, single allocations failing; 2-4 threads taking the lock around unprotected state, threads stalled anywhere"
CHECKS["C11"]["oracle"] = ("history: each tag and log that completed before the first finish began is in the recorded span once, none that began after it was recorded; name, baggage and sampling are some last write; "
                           "recorded exactly once, with its own identifiers, and unchanged afterwards; readers of baggage see current values; mutual exclusion; happens-before race detection")
CHECKS["C12"] = {
    "scenarios": [R("auto_recorder")],
    "workload": "1-3 threads recording and flushing with timeouts of any kind against a transport that is slow, fails, throws or disables the tracer; then a working transport, or destruction at once",
    "oracle": "history: every span in exactly one report, in order and intact, or dropped when the buffer was full during the call; drop counts of successful reports add up exactly; reports no later than the period (or at once when full); flush truthful and within its timeout; recording never blocks on a send",
}
CHECKS["C13"] = {
    "scenarios": [R("manual_recorder")],
    "workload": "1-3 threads finishing real spans, flushing and completing reports in any order and thread, in the send, later or in the full-buffer call, some failing; forks continued as parent or child",
    "oracle": "history: every span in exactly one report or dropped when the buffer was full; announced sizes equal to iteration and copy, contents unchanged until completion; drop counts of successful reports equal refused plus failed spans; observer totals exact; a child reports none of its parent's spans",
}
CHECKS["C14"] = {
    "scenarios": [R("legacy_recorder")],
    "workload": "programs of up to 60 records, flushes, completions and changes of the buffer size, with sends that complete inside, fail, throw or disable the tracer",
    "oracle": "executable model: at most one report in flight, each holding exactly the waiting spans in order and the exact count of unreported drops; spans refused only when the buffer is full behind a report; results of flushes",
}
CHECKS["C09"]["scenarios"].append(R("manual_recorder", weight=0.2))
CHECKS["C15"]["scenarios"].append(R("manual_recorder", weight=0.3))
CHECKS["C15"]["scenarios"].append(R("auto_recorder", weight=0.3))
CHECKS["C15"]["scenarios"].append(R("legacy_recorder", weight=0.2))
CHECKS["C17"]["scenarios"].append(N("parser", weight=0.25))
CHECKS["C17"]["workload"] += "; status lines, good and bad, in any pieces"
CHECKS["C17"]["oracle"] += "; a status line is read as the same code and reason however it is cut, and bad ones are refused"
CHECKS["C19"] = {
    "scenarios": [{"exe": "stream", "name": "names"}, N("resolver")],
    "workload": "the streaming tracer with names whose addresses change, against name servers that lose, delay, forge, repeat, truncate (and answer over TCP) and refuse; the resolver by itself with overlapping lookups of all kinds and destruction in the middle",
    "oracle": "each lookup answered exactly once within the time its settings allow, by the addresses of a reply meant for it; an answer in time answers it whatever came before; addresses connected to belong to the latest successful lookup; refreshes neither early nor missing",
}
CHECKS["C20"]["scenarios"].append({"exe": "stream", "name": "spread", "weight": 0.7})
CHECKS["C20"]["oracle"] += "; connections evenly spread over hosts and addresses; refresh and reconnect periods in range"
CHECKS["C04"]["scenarios"].append({"exe": "stream", "name": "names", "weight": 0.2})
CHECKS["C22"]["scenarios"].append(N("resolver", weight=0.2))
CHECKS["C21"] = {
    "scenarios": [N("events")],
    "workload": "random programs of up to 400 steps that arm, re-arm, cancel, move and destroy timers and descriptor events of every kind from inside and outside callbacks, with slow callbacks, interrupted and reordered waits, clock jumps and arriving data; the loop stopped and restarted",
    "oracle": "model of each event: fires only while armed, for what it asked for, not before its period and promptly after it; none fires after the loop is told to stop, which ends it at once",
}
for _c, _w in (("C07", 0.2), ("C18", 0.4), ("C22", 0.3), ("C02", 0.1)):
    CHECKS[_c]["scenarios"].append({"exe": "stream", "name": "construct", "weight": _w})
for _c, _w in (("C04", 0.25), ("C18", 0.2)):
    CHECKS[_c]["scenarios"].append({"exe": "stream", "name": "deliver_oom", "weight": _w})
CHECKS["C04"]["workload"] += "; allocations failing in the event loop"
CHECKS["C18"]["workload"] += "; tracers made, used, forked and destroyed while threads, descriptors, files, entropy, sockets or memory are refused"
for _c, _w in (("auto_recorder", 0.2), ("manual_recorder", 0.1), ("legacy_recorder", 0.1)):
    CHECKS["C06"]["scenarios"].append(R(_c, weight=_w))
CHECKS["C06"]["workload"] += "; flushes of the background, the caller-driven and the older asynchronous recorder"
CHECKS["C07"]["scenarios"].append(R("auto_recorder", weight=0.15))
CHECKS["C07"]["workload"] += "; the background recorder destroyed at random moments"
CHECKS["C16"]["scenarios"].append(R("times", weight=0.7))
CHECKS["C16"]["workload"] += "; spans of both tracers whose start, finish and log times are given, half given or taken from the clocks, in threads beside one that sets the clock"
CHECKS["C16"]["oracle"] += "; every recorded time and duration against the clock readings possible during the calls"
for _n, _w in (({"exe": "stream", "name": "names"}, 0.15), (N("resolver"), 0.1), (N("parser"), 0.05), (R("spans"), 0.05)):
    CHECKS["C18"]["scenarios"].append(dict(_n, weight=_w))
CHECKS["C22"]["scenarios"].append(dict(F, weight=0.15))
for _c, _w in (("C04", 0.12), ("C18", 0.3)):
    CHECKS[_c]["scenarios"].append({"exe": "stream", "name": "endure", "weight": _w})
CHECKS["C18"]["workload"] += "; long lives in which connections and names are replaced hundreds of times"
CHECKS["C18"]["oracle"] += "; the least memory and descriptors held don't grow over a long life"
for _c, _w in (("C04", 0.25), ("C03", 0.1), ("C15", 0.1), ("C18", 0.1), ("C19", 0.1)):
    CHECKS[_c]["scenarios"].append({"exe": "stream", "name": "outage", "weight": _w})
CHECKS["C04"]["workload"] += "; outages of up to 300 s in which nothing answers"
NA = {
    "C23": "a pure function of carrier and context: no schedule, clock, fault or I/O for a simulator to control",
    "C24": "a pure function of the configuration text: no schedule, clock, fault or I/O for a simulator to control",
    "C25": "a pure function of the message: no schedule, clock, fault or I/O for a simulator to control",
}

CHECKS["C26"] = {
    "scenarios": [R("lives"), {"exe": "stream", "name": "endure"}, {"exe": "stream", "name": "lineage", "weight": 0.6}],
    "workload": "up to 480 stretches of a life: fresh threads using spans of either tracer, reports of all recorders that succeed, fail or wait, flushes, forks continued as parent or child; the streaming tracer replacing connections and addresses hundreds of times under faults; up to 24 tracers of all kinds after one another",
    "oracle": "the least memory, descriptors, threads and fork handlers held in the last quarter of a life don't exceed those in its second quarter; nothing unreachable is left",
}
for _c, _w in (("C07", 0.12), ("C22", 0.1)):
    CHECKS[_c]["scenarios"].append({"exe": "stream", "name": "lineage", "weight": _w})
