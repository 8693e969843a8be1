#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
L = {}
PROOF = "deductive verification (Verus contracts on the extracted functions); executable contracts for failing inputs"
P = lambda note: ("proof", PROOF, note)
BASE = "Proved for all inputs by Verus on the functions extracted from /repo at each run. Assumed: std's documented behaviour (contracts/*.rs, listed in evidence under trusted_base), the extraction vx, Verus and z3. "
NOTES = {
 "C01": "Coherence is a postcondition of every function that builds or changes a matrix. Dropped exactly once: follows from ownership plus the exact-permutation contracts of the raw-pointer code; counted only in the bounded stand-in.",
 "C02": "The matrix is coherent at every point where caller code runs under &mut self (inserted assertions). Drop counts and unwinding itself: bounded stand-in.",
 "C03": "Which positions are handed out, bounds, alignment, len. Writes through the references are not modelled (bounded; Miri in the thorough tier).",
 "C04": "Every index type, including accessors that answer differently on each call.",
 "C05": "In-place transpose is a permutation proof over the real loop.",
 "C06": "Views over both kinds of iterator; std adapters (skip, step_by, take) by contract.",
 "C07": "Equality, results, errors and Display text are stated over logical positions; lemmas say that the order is invisible.",
 "C08": "Err exactly as stated; what the allocator does is assumed.",
 "C09": "Frame conditions on Err for every in-place operation.",
 "C10": "Raw pointers with ghost provenance; equal indices included.",
 "C11": "Element operators are uninterpreted relations; summation in the code's order.",
 "C12": "Closure calls by ghost trace: once per position, right arguments.",
 "C13": "Euclidean remainder for every isize pair.",
 "C14": "Overlap, frame, clones.",
 "C15": "Sequences and reported indices, by contract of std's iterators.",
 "C16": "That rayon processes each item exactly once and collects by position is assumed.",
 "C17": "Send/Sync: judgements of rustc's trait solver for all element types (a type-level step, not Verus). Disjointness: Verus. Real threads: bounded.",
 "C18": "1260 operator impls, grouped by identical text after abstraction over their types.",
 "C19": "Macros: one generic client per arm, expanded by rustc at each run.",
 "C20": "Whole texts of Display and Debug; assumed: padding, decimal digits, str::lines and chars().count() of std, an element's text is a function of its value.",
}
for i in range(1, 21):
    c = f"C{i:02d}"
    L[c] = P(BASE + NOTES[c])
m = {"version": 1,
     "setup_cmd": "python3 setup.py",
     "checks": [{"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"python3 check.py {p}", "technique": t, "level": l, "level_note": n} for p, (l, t, n) in L.items()],
     "not_applicable": [],
     "notes": "Every check builds what it needs from /repo's working tree into /verif/target (git-ignored). No hooks in /repo."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
