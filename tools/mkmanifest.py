#!/usr/bin/env python3
# Writes MANIFEST.json from one table.
import json
A = "Seeded search, not proof: held on every simulated history explored. Trusted: the simulator (scheduler, in-memory file system, clock), the independent reference plotter/parser or model used as oracle, sequentially consistent memory between instrumented accesses."
NOTE = {
 'C01': "Real main() and phases at k16 (k17/k18 thorough), phases alone at k13-15 and on synthetic tables, 32- and 34-bit table layouts; decoded plot compared entry by entry with an independent plotter.",
 'C02': "Independent parser of the plot file over real small plots, synthetic tables of chosen sizes and writers at k32 with file offsets around and beyond 4 GiB.",
 'C03': "Two simulated runs with different resources and schedules, canonical plot bytes compared.",
 'C04': "Real DiskSort with all entry types against a reference sort; field values over their whole range.",
 'C05': "Real table writer/readers against the list of written entries, sparse files beyond 32-bit offsets.",
 'C06': "Random pipelines of real Thread/ThreadPool objects, failing items, several producers.",
 'C07': "Deadlock detection from the wait graph, step and CPU bounds for livelock, spurious wake-ups and stalls injected.",
 'C08': "Errors, short writes, full disks and lost close-time data placed at counted operations of every phase and of the copy.",
 'C09': "Same fault placement plus failing thread creation and allocation; every run must end within the step bound.",
 'C10': "Crash at random steps and at every kind of file operation, before and after its effect; restart of the same command.",
 'C11': "State of the simulated disks is checked after every file operation of the move; faults and crashes inside it.",
 'C12': "Outage windows of the final directory in simulated time (hours), delivery time bounded.",
 'C13': "Signals at random and adversarial instants of simulated time, with jumps of the wall clock.",
 'C14': "Directory contents before/after, pre-existing files hashed, every path opened is watched.",
 'C15': "Bytes in use per directory after every operation, whole program at k16.",
 'C16': "Simulated descriptor table and rlimit, whole program and control flow with several plots.",
 'C17': "Real phase 2 against a reference pruning on arbitrary tables, positions up to the largest representable.",
 'C18': "Directory of every file created and order of plot start and delivery.",
 'C19': "Accepted minus finished items at every instant with slow consumers; bucket files consumed while the consumer is stalled.",
 'C20': "Real main() with unusable and usable argument vectors, failing directories and tight limits.",
 'C21': "Real Encoding and FSE driven by threads that race for the coding tables, preempted at any memory access; decoded by the real and by an independent decoder.",
 'C23': "One plotter stopped at a random instant, another with a different (also: nearly equal) id run to its end in the state it finds; every file of the first must be untouched.",
 'C22': "Real main() against an independent derivation of id, memo and name; several plots and runs. BLS and bech32 are stand-ins (the submodules are not in the tree).",
}
m = dict(version=1, setup_cmd="python3 check.py --setup",
 checks=[dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="python3 check.py %s --thorough" % p, evidence_file="evidence/%s.json" % p, technique="deterministic simulation with fault injection (seeded schedule and fault search)", level="exploration", level_note=NOTE[p] + " " + A) for p in sorted(NOTE)],
 not_applicable=[],
 notes="No hooks in /repo: the seams are the C/C++ library calls and the compiler's memory-access instrumentation, replaced at link time. See DESIGN.md.")
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1); open("/verif/MANIFEST.json", "a").write("\n")
