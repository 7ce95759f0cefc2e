#!/usr/bin/env python3
# writes /verif/MANIFEST.json
import json
T = "deterministic simulation: "
tech = {
 "C01": (T+"seeded preemptive interleavings of parallel parses (statement-level scheduler, race detector in the loop), abort and storage faults, against a fresh-process run of each task alone and the generator's tree",
         "Seeded search over schedules, workloads and faults; every library statement and sync operation is a scheduling point; every switch is free of happens-before edges, so the race detector sees all unordered accesses of the explored runs. A clean batch is evidence, not proof."),
 "C02": (T+"seeded preemptive interleavings of reads of one tree, race detector in the loop, against each read alone in a fresh process", "Seeded search; as C01."),
 "C03": (T+"panics injected at seeded statement indexes inside reads and callbacks, later reads against reads of a fresh tree in a fresh process", "Seeded search over abort points; aborts land at any statement of the library outside its critical sections."),
 "C04": (T+"retries after seeded aborts, errors and reads on one node, against one parse of a fresh node in a fresh process", "Seeded search over histories and abort points."),
 "C05": (T+"seeded histories of earlier, damaged and aborted parses before a probe, against a process without history; and modules against each of their procedures alone", "Seeded search over histories; the generated modules cover the whole grammar."),
 "C06": (T+"trees held across seeded interleaved work with forced garbage collections (freed memory is overwritten), compared with a fresh process at the end", "Seeded search; storage reuse shows because freed memory is overwritten (clobberfree) and collections are forced at seeded statements."),
 "C07": (T+"seeded storage faults on module texts, with a simulated work budget linear in the length (statements, bytes searched, bytes allocated), panic and crash detection, repetition", "Seeded search over damage; steps are executed statements and C loop iterations; the standard library's searches and the allocator count what they touch."),
 "C08": (T+"torn and zero-filled modules and lost, repeated, replaced or exchanged structure tokens at seeded places, against the generator's own record of constructs and a pairing automaton", "Seeded search over modules and cut points; the generator knows the construct at each byte."),
 "C09": (T+"seeded damage to modules, the reported place checked against the damaged text and the undamaged prefix", "Seeded search; errors without a location need nothing."),
 "C10": (T+"seeded map seeds, time zone, clock, random source, collection points and process environment, byte-for-byte against a fixed environment in a fresh process", "Seeded search; map order and hash seeds, the clock and random numbers are the simulator's."),
 "C11": (T+"standard streams replaced by files, closed descriptors, a full device or a broken pipe during whole runs, bytes counted and results compared", "Seeded search over inputs; both Go and C output are caught at the descriptor."),
 "C12": (T+"walks with panicking, re-entrant and replacing callbacks under seeded interleavings, checked statement by statement against the tree", "Seeded search; each walk is compared with an independent enumeration of all bodies."),
 "C13": (T+"seeded interleavings of token readers and sources that shrink, grow and change between and inside reads, against readers alone and the generator's tokens", "Seeded search; a source may change at every look the reader takes at it."),
 "C14": (T+"torn texts under seeded interleavings inside the C loop, with AddressSanitizer and a reference lower-casing", "Seeded search; the C code runs instrumented with a hook in every loop and, in a second build, with AddressSanitizer."),
 "C15": (T+"seeded storage faults confined to layout, keyword case, literals and names, against the generator's tree of the text as damaged", "Seeded search over modules and places; rejected modules are compared with their undamaged-layout twin."),
 "C16": (T+"seeded faults that tear loops, handlers and functions from around their content or misplace a statement, against a tree-level reference model of contexts", "Seeded search over modules and sets of tears."),
 "C17": (T+"seeded loss, repetition and reordering of whole parts of the stored module, against a reference model of the declaration rules", "Seeded search over modules and sequences of faults."),
 "C18": (T+"seeded histories of good, damaged, panicking and parallel work repeated over ever new texts, with pools dropped and collections and finalizers run by the simulator; Go and C heap, goroutines and descriptors compared between stages", "Seeded search over histories; growth counts as a leak only if it goes on over thousands of rounds or megabytes, so that a bounded cache passes."),
}
checks = [{"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough", "evidence_file": f"evidence/{p}.json",
           "technique": t, "level": "exploration", "level_note": n} for p, (t, n) in tech.items()]
pure = "A pure function of one text on one thread: no schedule, clock, I/O, fault or history enters it, so a simulator has nothing to decide; it would only be input generation (property-based testing). "
na = {
 "C20": pure + "Printing loses information on this tree by design in several places (fractions, explicit variables), see DESIGN.md.",
 "C21": pure + "The runs of C01, C04, C05, C08, C15, C16 and C17 compare every undamaged module with its generated tree on the way.",
}
m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in na.items()],
     "notes": "No hooks are committed in /repo: check.sh instruments a copy of the library's sources on every run and builds /repo with 'go build -overlay'. The commits in /repo are repairs (known_findings.txt)."}
open("/verif/MANIFEST.json", "w").write(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
