#!/usr/bin/env python3
# Writes MANIFEST.json.
import json
T="deterministic simulation with fault injection: seeded search over "
tree_note=("Explores seeded simulated runs of the real library code (compiled from the working tree with a scheduling point before each statement); "
 "{what} Not exhaustive: assurance is that of the runs explored (counted in the evidence). Trusts the Go compiler, the instrumentation and the reference model.")
etc_note=("Runs the real generator binary with its system calls behind a fault-injecting seam; small scenarios get every single fault at every call, the rest seeded plans. "
 "{what} Trusts the standard library's text/template as the definition of rendering and the fault model described in DESIGN.md.")
P={
"C01":(T+"interleavings, pauses and aborts of deriving callers; versions re-observed at arbitrary scheduling points",
 "compares complete observations (lookups, enumeration, emptiness, dump) of versions with those made at creation."),
"C02":(T+"interleavings of readers, enumerators, derivers and parsers, judged by the race detector which sees only the library's own ordering",
 "an access pair is judged by happens-before, so one run judges many schedules."),
"C03":(T+"histories, interleavings, aborts and comparison panics against an ordered-map model","compares every result and lookup with the model."),
"C04":(T+"histories, interleavings and aborts against a prefix-list model","compares every result, lookup and walk by children with the model."),
"C05":(T+"histories, interleavings and aborts against a network-list model","compares every result and lookup with the model."),
"C06":(T+"histories, interleavings and aborts against a name-list model","compares every result and lookup with the model."),
"C07":(T+"interleavings of producers, stalled, shared and abandoned consumers and derivers against the modelled content","compares every stream with the content its version's history implies."),
"C08":(T+"interleavings with consumers that stall or walk away; deadlock, step-bound and leak checks","progress is judged in scheduler steps, leaks by the simulator's list of live goroutines."),
"C09":(T+"mixtures of in-place and copy-on-write updates by interleaved callers against an ordered-map model and a copy-on-write rebuild","compares content after each operation."),
"C10":(T+"bulk updates with callbacks that look up, stall, sleep and panic, interleaved with other callers, against a network-list model","compares offers and outcome."),
"C11":(T+"long histories with aborted updates; comparisons counted per lookup and update","bounds 2*log2(n+1)+c per lookup and a constant multiple per update."),
"C12":(T+"interleavings, pauses and aborts of callers converting names and labels, against a reference decoder","compares every result and error, and earlier results again later."),
"C13":(T+"label iterations with callbacks that stop, stall, panic and iterate again, interleaved, against the labels of the text","compares calls and outcomes."),
"C14":(T+"I/O errors, short transfers, interruptions and failing closes under the real generator, against a reference rendering","compares exit and everything written."),
"C15":(T+"I/O errors and kills under the real generator; all effects on the simulated disk compared with the names of the instance","compares the whole disk before and after, and every attempted change."),
"C16":(T+"histories of failed and killed generator runs with lost and torn writes, ended by an undisturbed run","compares the final run's exit and output with a reference rendering."),
"C20":(T+"interleavings, one system call at a time, of generator runs over one disk, with errors and kills hitting some of them, against reference renderings","compares each run's exit and output, and the whole disk, with the renderings of the runs."),
"C21":(T+"generator histories with I/O errors and kills that make the fixed-width packages anew from their templates, then interleavings, aborts and histories over what was made, against the models of C01-C09, C11 and C17-C19","runs the real generator over a faulty disk, compiles what it made into the simulation instead of the packages in the tree, and judges it like those."),
"C17":(T+"interleavings of dumping and deriving callers, aborts included; each dump parsed and compared with the modelled content","compares nodes, labels, edges and their order with the content the version's history implies."),
"C18":(T+"long histories with aborted updates; what each version keeps reachable is measured against its modelled content","measures reachable nodes and held values by reflection."),
"C19":(T+"long histories over many entries with aborted updates; work in scheduler steps and nodes made anew measured against the length of the path to the key","counts the steps of each operation and, by reflection, the nodes a version does not share with its predecessor."),
}
checks=[]
for p,(t,w) in sorted(P.items()):
    checks.append({"property":p,"quick_cmd":f"./check {p} quick","thorough_cmd":f"./check {p} thorough",
      "evidence_file":f"evidence/{p}.json","technique":t,"level":"exploration",
      "level_note":(etc_note if p in("C14","C15","C16","C20") else tree_note).format(what=w)})
na=[{"property":"N01","reason":"A pure function of one label: no schedule, fault, clock or history for it to depend on. What of the conversions could depend on other callers is C12."},
{"property":"N04","reason":"Pure functions of a document, a selector and a path. That the generator uses the selected data and reaches the right files under faults is part of C14."}]
m={"version":1,"setup_cmd":"true","checks":checks,"not_applicable":na,
"notes":"No hooks in /repo: the checks instrument a copy of the working tree (trees) or lay a seam over package syscall at build time (generator). ./check replay FILE replays a violation. known-findings.txt lists what was found and repaired."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
