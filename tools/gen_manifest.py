#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection"
NOTES = {
 "C01": "Seeded search over interleavings of real threads running the real library, preempted at basic blocks, loads, stores, allocations and lock calls; every outcome compared with the same call in a pristine process. Samples schedules; assumes sequential consistency.",
 "C02": "Seeded search over histories (successes, rejections, panics, failed allocations, failing components, abandoned threads, reused text memory, up to hundreds of thousands of parses in one process); every outcome compared with a pristine process. Samples histories.",
 "C03": "Seeded search with threads stalled for good, stalled until all others are done, or unwound at sampled points; lock waits and step budgets are decided by the simulator. Samples stall points.",
 "C04": "Seeded search over parse/hold/read/compare/clone/drop schedules with freed texts and trees overwritten and reused; contents compared with what was returned, slices checked against other live texts; Send/Sync of the tree types checked at build time. Samples schedules.",
 "C05": "Live bytes of the library's own heap measured over repetitions of sampled histories with failures; reported only if it keeps growing up to 512 repetitions. Samples histories.",
 "C06": "Fails the nth, all from the nth, or all large allocations of sampled parses; compares with the fault-free outcome and retries. Samples texts; allocation points of a text are taken in turn.",
 "C07": "Scripted components inside about 95 compositions of the generic constructs; outcome compared with a small model fed with the components' answers. Samples texts, compositions and failure points.",
 "C08": "As C07 with fatal and need-more-input signals at sampled component calls; the signal must be the outcome and the last component call. Samples.",
 "C09": "As C07 with panics, allocation failures and re-entrant parses in components; payload, exactly-once destruction of every value and the retried outcome are checked. Samples.",
 "C10": "As C07 with components that succeed without consuming; component calls and simulated steps are bounded, list lengths checked against consumed input. Samples.",
 "C11": "The same operations in several simulated environments (clock, randomness, variables, ids, stream errors, heap, stack and text addresses), outcomes compared with a pristine baseline; any clock, variable, stream or file call made during a parse is reported. Samples.",
}
NA = "A statement about one call as a pure function of its text: no schedule, clock, fault, history or other party enters it, so simulation would be plain input generation under another name."
na = {
 "C12": NA, "C13": NA, "C14": NA, "C15": NA, "C16": NA,
 "C17": NA + " Stack depth depends on the text alone.",
 "C18": NA + " Running time depends on the text alone; the technique decides nothing about performance.",
 "C19": NA, "C20": NA + " (Concurrent use of these operations is part of C04.)", "C21": NA,
}
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "checks": [{
   "property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough",
   "technique": TECH, "level": "exploration", "level_note": n} for p, n in NOTES.items()],
 "not_applicable": [{"property": p, "reason": r} for p, r in na.items()],
 "notes": "No hooks in /repo: the seams are the global allocator, libc symbols and compiler instrumentation added by the harness build. Replays: bash replay.sh FILE. Design and findings: DESIGN.md, known-findings.txt.",
}
open(os.path.join(root, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
