#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
NOTE = {
    "C01": "Seeded simulation of the real inspectors and of dependence-checked execution of the schedule they return; samples graphs (1 to some 200 vertices, now and then tens of thousands), parameters and interleavings.",
    "C11": "Every fault position of small files is eventually sampled; stdio and stream reads go through a simulated disk.",
    "C12": "Writer and reader run against one simulated disk that keeps only what was flushed before the crash point.",
    "C20": "The routines are sequential: what the simulator decides is heap contents, earlier calls, concurrent callers and failing allocations, around seeded inputs.",
    "C21": "As C20, with METIS behind a seam that can fail.",
    "C22": "As C20; METIS itself is the installed library (not simulated) behind a seam that checks the graph it is given and can fail.",
    "C27": "METIS is the installed library behind a seam; the executors are the repository's own. Rounding is bounded by a running error analysis, not compared bit by bit.",
    "C25": "CSVManager offers no way to report a failed write; the check is about what the file holds.",
    "C14": "One allocation of the call fails (any ordinal), once or from then on; std::bad_alloc, terminate and a null-pointer stop all count as the process stopping.",
}
DEF = ("Seeded simulation of the real code on a simulated OpenMP runtime, heap, clock and disk; every interleaving, hand-out and fault is decided by the seed. "
       "Evidence from sampled executions, not proof; sequentially consistent memory; inputs of up to some 200 vertices (a few runs with tens of thousands), teams of up to 64 threads.")
TECH = {
    "C11": "deterministic simulation: simulated disk with read faults, truncation and corruption, reference-parse oracle",
    "C12": "deterministic simulation: write/crash/read-back on a simulated disk, round-trip oracle",
    "C13": "deterministic simulation: concurrent callers as simulated threads, shared-state conflict detection, solo-run oracle",
    "C14": "deterministic simulation with allocation-failure injection, undisturbed-run oracle",
    "C20": "deterministic simulation: call histories, heap contents, concurrent callers and allocation failure, reference-model oracle",
    "C21": "deterministic simulation: call histories, heap contents, concurrent callers, allocation and ordering failure, reference-model oracle",
    "C22": "deterministic simulation: call histories, concurrent callers, allocation failure and a failing METIS behind a checking seam",
    "C23": "deterministic simulation: repeated calls and disk faults on a simulated heap, block-conservation oracle",
    "C24": "deterministic simulation: simulated clock with jumps, concurrent demos, independent timing model",
    "C25": "deterministic simulation: simulated disk with crashes, full disk, I/O errors and restarts; recorded-history oracle",
    "C27": "deterministic simulation of whole programs: schedules, simulated disk with crashes and restarts, allocation failure, concurrent users; stage-by-stage reference oracle",
    "C17": "deterministic simulation with a checked heap and poisoned memory under random schedules",
    "C18": "deterministic simulation: bounded progress under stalled threads and short teams",
}
TD = "deterministic simulation: seeded schedule and fault search, reference-model oracle, exact replay"
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                   "technique": TECH.get(i, TD), "level": "exploration", "level_note": (NOTE.get(i, "") + " " + DEF).strip()})
m = {"version": 1, "setup_cmd": "python3 sim/build.py", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "hooks": {"guard": "SYM_SIM_HOOKS", "enable": "sim/build.py compiles /repo with -DSYM_SIM_HOOKS; the shipped build does not define it",
               "source_commits": ["4c5013123190e88a2b8f0acf2e0e552bc0f165e3"]},
     "notes": "The one hook lowers the size limit of a code path; everything else is interposed at link time on the compiler's OpenMP "
              "and memory-access callbacks and on libc. Replay a reported file with: python3 check.py --replay FILE. "
              "Known and repaired defects: known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
