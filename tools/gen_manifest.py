#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
C = {
 "C01": ("seeded thread schedules (sys.monitoring scheduler, one thread at a time), outcome of each call compared with a cold process", "preemption at chosen or random lines/instructions of library and ANTLR runtime code"),
 "C02": ("seeded thread schedules over one shared QueryParser, its error list sampled at every switch", "the error list must always be that of exactly one call"),
 "C03": ("seeded call histories on one process and its objects, with clock jumps, collections and option changes between the calls", "each result compared with a cold process"),
 "C04": ("exceptions injected at swept lines/instructions of a call, then later calls on the same and other objects and threads", "later results compared with a cold process"),
 "C05": ("failures injected at swept lines/instructions of a call", "documented outcome (parse exception with cause, fault-free result) demanded"),
 "C06": ("cancellations injected at swept lines/instructions and inside callbacks", "the very same exception object must come out"),
 "C07": ("simulated call stack limit at every headroom from far too small to just enough, nested queries", "fault-free answer or documented failure demanded"),
 "C08": ("seeded histories and schedules with adversarial modification of handed-out results", "all results handed out are compared again after every step"),
 "C09": ("seeded validator-object histories with violations, cancellations and failures injected midway", "verdict, errors, warnings and ancestor view compared with a new validator"),
 "C10": ("faulty log devices and standard streams, log level switched at chosen points", "results compared, file descriptors 1 and 2 captured"),
 "C11": ("nested calls started at swept lines/instructions of an outer call, in log handlers and in callbacks", "inner and outer results compared with a cold process"),
 "C12": ("process state compared at every scheduling point of calls under faults and concurrency", "recursion limit, streams, logging, warnings, signals, environment, random state, descriptors ..."),
 "C13": ("seeded histories with faults; then all results dropped and the heap searched for library objects and query text; allocation growth over rounds", "no collector run is left to chance: collections are part of the schedule"),
 "C14": ("first imports torn down at swept lines/instructions, file reads and stack depths, retried, then used", "module contents and results compared with an uninterrupted import"),
 "C15": ("seeded schedules and faults over shared trees, tree compared at every scheduling point", "bit-identical tree, each result as if alone"),
 "C16": ("simulated replicas in real interpreters with different settings behind a lossy, duplicating, reordering network with crashes", "all answers to a request must equal the reference"),
 "C17": ("fork at swept lines/instructions of calls in flight in other threads", "results in child and parent compared with a cold process, deadlocks detected by the scheduler"),
 "C18": ("simulated replicas exchange pickled results (duplicated, late, forwarded, after crashes); deep copies under seeded schedules and injected faults", "every copy and all work on it compared with the original, the original compared afterwards"),
 "C19": ("long seeded histories of calls, injected faults and pauses in which the same calls are measured again and again", "work of a call in a fresh process; growth over the rounds; virtual time waited"),
 "C27": ("seeded histories in which an application defines, registers, replaces, removes and uses classes of its own, with injected faults and seeded schedules", "the same call with only its own extension in a fresh process"),
}
NA = {
 "C20": "pure function of the query text: no schedule, clock, fault, I/O or history can change it (what could - interference, history, faults - is C01-C17)",
 "C21": "pure function of the query text and options; nothing to schedule or to fail",
 "C22": "pure function of the query text; nothing to schedule or to fail",
 "C23": "pure function of the query text; nothing to schedule or to fail",
 "C24": "pure function of the tree and the validator settings; independence from histories and faults is C09 and C15",
 "C25": "pure functions of a node; nothing to schedule or to fail",
 "C26": "pure function of the flag letters; nothing to schedule or to fail",
}
checks = []
for i, (t, n) in sorted(C.items()):
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                   "evidence_file": "evidence/%s.json" % i, "technique": T + t, "level": "exploration",
                   "level_note": n + ". Seeded search over simulated executions: sampled, not exhaustive; every reported violation is minimised and replays exactly in a fresh process. "
                   "Trusts CPython's documented behaviour, the simulator in /verif/dst and the outcome of the call alone in a cold process as reference."})
json.dump({"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
           "notes": "No hooks in /repo: sys.monitoring is the scheduling seam, locks/clocks/random/file reads are replaced inside the simulator process. "
                    "Replay a violation with: python3 replay.py <replay file>."}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
