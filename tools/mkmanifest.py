#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCHED = "generated schedules of a cooperative scheduler that owns every shared-memory access; sequentially consistent; one process"
NVM = "cache-line model of persistent memory: a line reaches the medium by flush+fence, or by eviction at any point; file creation, sizing and renaming are durable at once"
T = {
 "C01": ("model-based property testing (operation sequences against a reference map, shrinking)", "every result and the full contents compared with a reference map over generated sequences, table sizes and hash functions; single thread"),
 "C02": ("model-based property testing plus generated schedules with a linearizability oracle", SCHED),
 "C03": ("property-based testing of generated operation histories and schedules against a linearizability checker", SCHED),
 "C04": ("metamorphic property testing (same history at different capacities) and generated schedules across growths, linearizability oracle", SCHED),
 "C05": ("model-based property testing and generated schedules of increments, linearizability oracle", SCHED),
 "C06": ("property testing of an invariant (size equals the number of present keys) after generated sequential and concurrent histories", SCHED),
 "C07": ("generated schedules with threads suspended at generated points; oracle: the others finish within a step bound", SCHED + "; termination is judged by a generous bound on memory accesses"),
 "C08": ("property-based crash testing: generated schedules, power-failure points and lost cache lines, durable-linearizability oracle", SCHED + "; " + NVM),
 "C09": ("stateful property testing over sessions of use, crash (also during recovery) and recovery, durable-linearizability oracle", SCHED + "; " + NVM),
 "C10": ("property testing of generated leftover files followed by a fresh map, reference-map oracle", NVM),
 "C11": ("property testing with generated storage faults (open/ftruncate/mmap/fstat/rename), reference-map and linearizability oracle", "faults are injected at the libc boundary"),
 "C12": ("property testing of persistent cells and whole-map histories cut by power failures; oracle: nothing observed may be lost", SCHED + "; " + NVM),
 "C13": ("property testing over generated words near the reserved bit patterns, round-trip oracle", "single thread; at most eight keys that agree in their low twelve bits"),
 "C14": ("model-based property testing of all four adapters through the common interface, reference-map oracle, sessions over files and pools", "single thread; elements are either set members or counters, because the adapters differ (by documentation) when a counter is inserted again"),
 "C15": ("generated schedules of concurrent histories on each adapter with a linearizability oracle", SCHED + "; level hash map: every thread has its own elements and the table does not grow (C20 covers that)"),
 "C16": ("model-based property testing of operation sequences with aborted transactions and allocation failures, reference-map oracle", "single thread; colliding hash functions; full contents, size and element lifetimes after every step"),
 "C17": ("generated schedules of concurrent histories with accessors; linearizability, exclusion and progress oracles", SCHED),
 "C18": ("property-based crash testing of generated concurrent histories, durable-linearizability oracle over reopened pools", SCHED + "; " + NVM + "; libpmemobj itself is executed, not modelled"),
 "C19": ("model-based property testing of operation sequences interleaved with the expansion thread by generated schedules, reference-map oracle", SCHED + "; erasures and updates do not overlap an expansion"),
 "C20": ("generated schedules of concurrent histories with a linearizability oracle", SCHED + "; erasures and updates do not overlap an expansion (recorded finding); common keys are only inserted and searched"),
 "C21": ("property-based crash testing of generated concurrent histories, durable-linearizability oracle over the reopened pool", SCHED + "; " + NVM + "; libpmemobj itself is executed, not modelled"),
 "C22": ("stateful property testing of generated transaction trees against a reference interpreter, with aborts, exceptions, failing allocations and power failures", NVM),
 "C23": ("stateful model-based property testing against std::vector with aborting transactions, failing allocations, throwing elements and power failures", NVM),
 "C24": ("stateful model-based property testing against std::basic_string with aborting transactions, failing allocations and power failures", NVM),
 "C25": ("stateful model-based property testing against std::vector with aborting transactions, failing allocations, throwing elements and power failures", NVM),
 "C26": ("stateful model-based property testing against std::array, plus a metamorphic check that exactly the exposed elements are undone", NVM),
 "C27": ("stateful property testing of generated allocation histories against a reference interpreter (contents, object count, constructor/destructor log), and of pointer expressions against plain pointers", NVM),
 "C28": ("property-based testing with generated inputs, splits and seeds; differential oracle (reference implementation from the specification) and metamorphic relations", "XXH3 (a non-final revision here) is checked for internal agreement only"),
 "C29": ("property-based testing of the real driver with generated command lines, data files and schedules over a recording container; oracle: an independent description of each workload", "numeric option values are numbers; rand() is replaced by a generator"),
 "C30": ("property-based testing of the real driver over the real containers with generated inputs and schedules; oracle: final contents computed from the input alone, linearizability where they depend on the schedule", SCHED),
 "C31": ("property-based concurrency testing: generated lock and wait programs under generated schedules and virtual time, invariants over the history", SCHED + "; virtual clocks over the pthread objects under libpmemobj; spurious wake-ups are generated"),
 "C32": ("stateful model-based testing of generated sequences over several pools and sessions with power failures; generated schedules for per-session state", NVM + "; libpmemobj itself is executed, not modelled"),
 "C33": ("stateful model-based testing of generated operation sequences against a reference map, with generated hash distributions and crowded keys", "one client at a time"),
 "C34": ("property-based concurrency testing under generated schedules of threads that come and go, power failures at generated points, and model-based testing of generated pointer expressions", SCHED + "; " + NVM),
}
NA = {}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks = [{"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
           "evidence_file": "evidence/%s.json" % p["id"], "technique": T[p["id"]][0], "level": "exploration", "level_note": T[p["id"]][1]}
          for p in props if p["id"] in T]
na = [{"property": p["id"], "reason": NA.get(p["id"], "no check built yet")} for p in props if p["id"] not in T]
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
