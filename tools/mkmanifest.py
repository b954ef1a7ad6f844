#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "P01": ("interprocedural alias and write-effect analysis (abstract interpretation of the Python source)",
         "Every store on every abstract path of every public entry point is resolved to the memory it reaches. Trusts the models of numpy views/copies and that external libraries do not write to their array arguments."),
 "P02": ("abstract interpretation of the Python source with a must-preserve domain over data-quality words",
         "Every store into DQ memory and every returned DQ plane of the dark, saturation, linearity, jump and ramp-fit drivers; each abstract word records the inputs whose bits it must still hold and the flags removed from it. Trusts the numpy models."),
 "P03": ("abstract interpretation with a may-raise domain over named data-quality flags, per configuration",
         "Flags and literals ORed into each DQ plane, the record attributes the C code reads, the inputs each flag's condition depends on and the width of image DQ words; ~70 configurations of 18 drivers. Comparison polarity and thresholds are not judged."),
 "P04": ("taint analysis of unexcluded group samples by abstract interpretation of the Python source, per configuration",
         "Group samples carry one fact per unusable flag until a selection, masked store or weight tests that flag; every reduction and library estimate of jump detection and the likelihood fit, every returned group DQ of the two-point detection and every linearity store is checked in ~43 configurations. Polarity of the test is not judged; the compiled fitter's exclusion is judged by its flag tests only."),
 "P05": ("taint analysis of possibly-NaN values by abstract interpretation of the Python source",
         "Every reduction and neighbourhood operation reached from the drivers over arrays the code fills with NaN or inputs handed over with NaN; infinities and NaN from arithmetic on valid numbers are not judged."),
 "P06": ("symbolic range analysis of row bounds (polynomials with whole-number division, minima and loop recurrences) by abstract interpretation of the Python source",
         "Every family of row sections cut or stored by jump detection, ramp fitting, read-level linearity and the on-disk median: start, adjacency, coverage of the last row, write-back, boundary rows. Bounds outside the polynomial language are not judged."),
 "P07": ("relational dependence analysis: serial against parallel interpretation of the same configuration",
         "Every value handed to a worker function, every attribute the compiled fitter reads and every returned plane, for one and for three processes; statistics over a worker's rows. Values with equal dependences but different numbers are not told apart."),
 "P08": ("loop-carried state analysis: definite assignment per loop body, left-over buffer dependence by abstract interpretation, reset obligations in the Cython loop",
         "Every loop of every function for stale names; every per-item loop the drivers reach for buffers made before it; the compiled per-pixel loops of the Cython files. The C pixel loop is covered by the reset obligations only."),
 "P09": ("alias/effect and dependence analysis of state that outlives a call (abstract interpretation, syntax queries, C and Cython front ends)",
         "Every store reached from every driver, and every function's syntax, is checked; trusts that external libraries keep no state affecting results."),
 "P11": ("path-sensitive definite assignment, interface (import/arity/attribute) checking and None-ness abstract interpretation",
         "Covers every function for names and call signatures; attribute, key and None checks cover the paths the drivers reach, modulo the models of external libraries."),
 "P12": ("typestate (acquire/release) analysis over all normal and exceptional exits",
         "Every function and acquisition site; calls are assumed able to raise except a short list of primitives."),
 "P18": ("typestate of the resampling object over add/finalise/reset histories, polynomial exposure totals and per-pixel value expressions by abstract interpretation, with the drizzle library replaced by its algebra",
         "Three images in two groups, nine configurations, missing planes; values of a pixel every image covers with valid data, one input pixel per output pixel. Trusts that the drizzle library computes weighted means."),
 "P19": ("abstract interpretation of sky matching with symbolic sky values: image data and recorded sky as polynomials, per method, direction, subtraction setting and mixture of measurable images",
         "Four images, two of them in a group; the statistics function and the overlap polygons are replaced by symbols. Optimality of the matched differences is P23 (not applicable)."),
 "P13": ("dimensional analysis: units carried by abstract interpretation of the Python source and of the C source, with electrons as squared noise and frame time kept apart from group time",
         "Every sum, difference, comparison, selection and partial store whose two dimensions are known; dimensions of returned planes and of what reaches the compiled fitter and the drizzle library. Dimensions lost in library results are not judged; factors without dimension are not visible."),
 "P14": ("angle-unit inference: abstract interpretation of the Python source with degrees, radians, arcseconds and milliarcseconds as separate units, conversion factors recognised by value, and astropy quantities kept apart",
         "Every trigonometric call, conversion, sum, comparison, labelled number, library argument and documented result whose angle unit is known, in 14 drivers (alignment, aberration, alignment to catalogues, resampling, sky matching, jump ellipses). Angles whose unit is lost in library results are not judged."),
 "P15": ("named-axis inference: abstract interpretation of the Python source with axis labels on arrays, lengths, indices and pixel coordinates, and of the C source with index layouts",
         "Every combination, store, subscript, bound and clamp whose axes are known in all 37 drivers and the compiled fitter; x/y order of bounding boxes, WCS calls, region centres and drizzle limits; axes of returned planes. Axes lost in library results or boolean selections are not judged."),
 "P16": ("path-sensitive ownership and typestate analysis of the whole C extension from its method table: pointers, block life, owned references, pending exception, with every allocation and failing API call split into success and failure",
         "One (quick) or two (thorough) failing calls per path. List nodes are followed until they are stored in their list. Index bounds inside verified extents belong to P15. The Cython fitters hold no manual memory."),
 "P17": ("abstract interpretation of both sides: the C source from its method table (attributes, argument order, element types, fields, results) and every Python configuration up to the call (inputs behind every attribute, byte order, results)",
         "Serial and parallel, both machine byte orders. Field meanings are a name table: a value stored under a name of another quantity is reported, unknown names are not. dtypes not visible in Python are left to the type checks in C."),
 "P20": ("path conditions (guards) carried by abstract interpretation to every effect; simulated failures of external calls traced to the exception that leaves the driver",
         "Relative and absolute alignment and both catalogue services; trusts the messages of the alignment library. The correction-size test of relative alignment necessarily follows the alignment."),
 "P10": ("missing-dependence analysis of option flow per configuration (abstract interpretation)",
         "Dependence of outputs and library-call arguments on each option over all abstract paths of ~85 configurations; an option that is honoured on one path and ignored on another inside one configuration is only caught where it is handed on by name."),
}
NA = [
 {"property": "P21", "reason": "numerical optimality of estimates over a continuum of inputs; no sound static argument in reach"},
 {"property": "P22", "reason": "numerical agreement of transforms over a continuum of inputs; not visible in the shape of the code"},
 {"property": "P23", "reason": "least-squares minimality and the relativistic formula are numerical identities"},
]
checks = []
for pid in sorted(T):
    if not os.path.exists(os.path.join(V, "checks", pid + ".py")): continue
    tech, note = T[pid]
    checks.append({"property": pid, "quick_cmd": f"python3 check.py {pid} --tier quick",
                   "thorough_cmd": f"python3 check.py {pid} --tier thorough", "evidence_file": f"evidence/{pid}.json",
                   "technique": "static analysis: " + tech, "level": "other", "level_note": note})
claimed = {c["property"] for c in checks}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [x for x in NA]
for p in props:
    if p not in claimed and p not in {x["property"] for x in na}:
        na.append({"property": p, "reason": "no check registered yet (work in progress)"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "All checks read /repo/src/stcal at run time; nothing of stcal is imported or executed. No hooks in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
