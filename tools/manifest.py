#!/usr/bin/env python3
"""Writes MANIFEST.json (python3 tools/manifest.py, from /verif)."""
import json
trust = ("Trusts the reference (sim/q/ref.go, self-tested), the simulated solver (every model and most refutations are re-checked), "
         "the simulated os, os/exec, sync, time, maps and math/rand packages, and the instrumenter. Sampling, not proof: a clean run is evidence for the runs made.")
notes = {
 "A01": "Seeded whole-system runs: the real library writes its formulas to the simulated disk, a simulated solver process with seeded search order, strictness and output answers, the verdict is compared with evaluation of the query by definition. All predicate forms, connectives, quantifiers; dimensions to 12. ",
 "A02": "As A01, for values read back: seeded valuations, output layouts, chunkings and output faults (torn, missing); complete and legal values, a true witness, an error where the output does not determine one. ",
 "A03": "As A01, with quantifier-heavy queries and templates that count nodes, need own witnesses per node, shadow and nest. ",
 "A04": "The solver picks, under the seed, the least or a random improving instance at each step; the optimum is compared with the whole set of satisfying instances. ",
 "A05": "As A04; counts solver starts against the longest improving chain and checks each move; an execution that does not end is cut off by a statement budget. ",
 "A06": "Nested combinations with faults at solver and storage operations; each node's result is compared with what its parts answered. ",
 "B01": "Process faults (start errors, kill after any output byte, exit statuses, UNKNOWN, pipe read errors) at operations that occur; compared with the same run without faults. ",
 "B02": "Storage faults (create, open, write incl. short writes, close, remove, file removed by others) likewise; no answer from a partly stored formula, ToFile reports success only if all is stored. ",
 "B03": "Histories in which operations fail by faults or by caller code, then heal; every later operation is compared with the same one on a fresh solver and context. ",
 "B04": "After every operation the simulated file system and its open handles are compared with before; files of others must be untouched. ",
 "B05": "2 to 4 callers interleaved at statement granularity by a seeded scheduler, with faults and crashes; each caller's results are compared with running alone; inputs must be unmodified. ",
 "B06": "Histories on one context; each operation is compared with the same one on a fresh context, witnesses are checked. ",
 "B07": "Interleaved callers derive formulas from a shared pool; after every operation every live formula is compared with an immutable model; negations are checked by truth tables. ",
 "B08": "Histories of context operations by interleaved callers, with encodings interrupted by failing caller code, against a name table. ",
 "B09": "Each computation runs twice, the second time with other map order, temporary names, directory contents, stream chunks and a concurrent caller; formula bytes and results must be equal. ",
 "B10": "Histories with ill-formed queries, missing contexts and trees without nodes between well-formed operations, some with faults on top; each flawed operation must fail without running the solver or leaving anything behind, each other one is compared with a fresh twin. ",
}
tech = "deterministic simulation with fault injection: seeded "
what = {
 "A01": "solver behaviours over whole computations, oracle: reference evaluation",
 "A02": "valuations, output layouts, chunkings and output faults, oracle: reference evaluation of the witness",
 "A03": "solver behaviours over quantified computations, oracle: reference evaluation",
 "A04": "adversarial sequences of solver answers, oracle: enumeration of satisfying instances",
 "A05": "adversarial sequences of solver answers, bounded liveness and call counting",
 "A06": "faults at any part of a combination, oracle: its parts' answers",
 "B01": "solver process faults, oracle: fault-free twin run",
 "B02": "storage faults, oracle: fault-free twin run and stored bytes",
 "B03": "faults and failing caller code followed by healing, oracle: fresh twin",
 "B04": "faults, crashes of others and shared directory, invariant on files and handles",
 "B05": "statement-level interleavings with faults and crashes, oracle: solo twin",
 "B06": "histories on one context, oracle: fresh twin and reference witness",
 "B07": "statement-level interleavings over shared formulas, oracle: immutable model",
 "B08": "interleaved and interrupted histories, oracle: name table",
 "B09": "environment perturbation, oracle: byte equality of twin runs",
 "B10": "histories with ill-formed queries and faults, invariant on refusals and oracle: fresh twin",
}
checks = [{"property": p, "quick_cmd": "./check.sh "+p, "thorough_cmd": "VERIF_TIER=thorough ./check.sh "+p,
           "technique": tech+what[p], "level": "exploration", "level_note": notes[p]+trust} for p in sorted(notes)]
m = {"version": 1, "setup_cmd": "./check.sh build",
 "hooks": {"guard": "go build -overlay (build/overlay/overlay.json, generated from /repo's working tree); nothing in /repo is guarded or changed",
           "enable": "check.sh runs sim/cmd/instrument on /repo and builds sim/cmd/vsim with the overlay; without it /repo builds as shipped",
           "source_commits": []},
 "checks": checks,
 "not_applicable": [
  {"property": "N03", "reason": "A statement about growth, i.e. performance; simulation decides nothing about it."},
 ],
 "notes": "One simulator (sim/), one driver (check.sh). ./check.sh replay FILE re-executes a violation. known_findings.txt lists findings and fixes; DESIGN.md explains all of it."}
json.dump(m, open("MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open("MANIFEST.json", "a").write("\n")
