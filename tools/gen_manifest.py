#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED lists the properties whose check exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {
 "C14": "seeded histories of wrapper calls over a stand-in library that makes planned engine calls fail; exceptions, contexts and predictions compared with the engine driven directly",
 "C06": "several threads make seeded histories of C calls on their own contexts under seeded schedules; every status and prediction compared with the same history made alone",
 "C07": "seeded histories of valid and invalid C calls with failing allocations and failing standard output; statuses, predictions and later behaviour compared with a reference model of the context",
 "C08": "seeded C call histories compared bit for bit with a fresh context, with the same values through CSV, and with the command line program",
 "C09": "seeded C call histories repeated over a simulated heap (guarded, moving, poisoned, leak-counted) and guard pages behind the caller's buffers",
 "C12": "the export program and the export function over simulated files and writers with short, interrupted and failing writes, full disks and failing opens; bytes compared with the configuration in force",
 "C13": "the command line program run whole in the simulator with seeded schedules and file and standard output faults; exit status and output compared with a reference run of the library",
 "C10": "seeded operation histories over the bit, slice and histogram block stores with poisoned, moving memory, compared with a map model",
 "C11": "seeded CSV tables read through a faulty reader (short reads, interrupts, errors); the data set compared with a reference parse, and corrupted inputs must be errors",
 "C01": "baseline training against seeded variants of schedule, workers, memory, clock and entropy, compared bit for bit",
 "C02": "real learner under seeded schedules behind a labelling objective; every node's split recomputed in double precision from raw data and candidates",
 "C03": "real learner under seeded schedules; leaf membership by routing and leaf values recomputed in double precision for all five objectives",
 "C15": "seeded update histories with clock, entropy and heap variation; bag and feature samples checked against exact size, order, timing and 8-sigma frequency bounds",
 "C16": "seeded update histories over reused, poisoned buffers; every bit of every candidate set compared with the raw data",
 "C04": "real Booster with recording metrics under seeded schedules; running predictions against models of exactly that many rounds",
 "C05": "ordinary and degenerate trainings under seeded schedules, stalls, spurious wake-ups and concurrent callers; panic, deadlock, step budget and finiteness are checked",
}
NA = {
 "C17": "pure functions of their arguments: no schedule, clock, fault or history to simulate (errors that reach training are seen by C02 and C03)",
 "C18": "parsing is a pure function of one line of text: nothing nondeterministic to simulate",
 "C19": "closed formulas over two arrays: nothing nondeterministic to simulate",
 "C20": "pure function of the sketch contents: nothing nondeterministic to simulate (errors that reach training are seen by C03 and C16)",
}
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the seams are traits, the C ABI, libc symbols and compiler-inserted callbacks. BB_REPO is not used by the checks."}
for i in ids:
    if i in CLAIMED:
        m["checks"].append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": "deterministic simulation with fault injection",
            "level": "exploration",
            "level_note": "Seeded search, not exhaustive: " + CLAIMED[i] + ". Trusts simrt (scheduler, futex, heap, I/O seams) and the harness oracle; explores sequentially consistent interleavings at instrumented accesses only."})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
