#!/usr/bin/env python3
"""MANIFEST.json from the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GVN = "dataflow analysis: gated value graphs of the source + global value numbering against reference definitions"
TECH = {
    "P01": "dataflow analysis: value graphs of the Python fallback and of the C++ kernel (clang AST) + global value numbering",
    "P04": "dataflow analysis: bounds and constraint values reaching the optimiser call, matched by position",
    "P05": "dataflow analysis: typestate of the model object over converged/failed optimiser outcomes + value numbering",
    "P06": "typestate / effect analysis: optimiser call sites reached from an already-estimated model object",
    "P21": GVN + "; index-in-range obligations by interval reasoning on the gates",
    "P25": GVN,
    "P26": "dataflow analysis: gated value graphs with the optimiser as an unknown function, + global value numbering",
    "P27": GVN + "; random draws as positions of one stream",
    "P08": "effect analysis: writes to storage that may alias caller-supplied arrays",
    "P09": "effect analysis: random-draw, seed, clock and unordered-iteration sites reached from public entry points",
    "P10": "effect analysis: process-wide state writes, file and network sites, restored on every exit",
    "P11": "path-sensitive abstract interpretation over the clang AST: linear facts about extents, types and indices at each element access",
    "P12": "typestate over all paths of the clang AST: ownership, exception, lock, worker and format states of the C-API",
    "P13": "lock-set and partition analysis over the clang AST of the thread bodies",
    "P14": "path-sensitive abstract interpretation over the clang AST: provenance of samples, draws and containers, linear facts at leaf and split sites",
    "P15": "abstract interpretation over the clang AST: growing and scoring paths over shared roles, pairwise exclusion of conditions that disagree",
    "P16": "abstract interpretation over the clang AST (extracted score terms against the formula) and dataflow of the Python caller",
    "P32": "import, name and call resolution over the syntax trees and the extension method tables",
    "P33": "dataflow: shape-guard obligations at entry of each measure",
    "P34": "effect and dataflow analysis of the dataset accessor and the distribution manifest",
}
NOTE = {
    None: "Decided from the current source for symbolic inputs of symbolic length, in exact real arithmetic; terms that are not "
          "congruent after normalisation are compared by random interpretation of the two value graphs (Gulwani-Necula), which can "
          "miss a difference with small probability. Trusts the analyser's model of Python, numpy, scipy and the C++ subset. "
          "Constructs outside the analysable fragment are printed as UNDECIDED and counted as not covered.",
}
NA = {
    "P35": "Global optimality of a numerical optimiser on a non-convex likelihood depends on run-time iterates for all data; no static argument in reach bounds it. The statically decidable parts (objective, feasible set, start, what is published) are P03-P07, P25, P26.",
    "P36": "A statement about the probability distribution of simulation error; nothing in the shape of the code decides it. The formulas simulated are P21, P27, P30.",
    "P37": "Rounding, cancellation and overflow for all inputs need quantitative floating-point error bounds over data-dependent recursions of unbounded length; out of reach of the analysis, which works in exact real arithmetic.",
}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for i in ids:
        if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
            checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i,
                           "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
                           "evidence_file": "evidence/%s.json" % i,
                           "technique": TECH.get(i, GVN), "level": "other", "level_note": NOTE.get(i, NOTE[None])})
        else:
            na.append({"property": i, "reason": NA.get(i, "No check registered yet in this revision (the static rule is described in DESIGN.md).")})
    m = {"version": 1, "setup_cmd": "python3 -c \"import ast\"", "checks": checks, "not_applicable": na,
         "notes": "All checks are static analyses run with the system python3 standard library and clang's AST dump; the code of /repo is parsed, never executed. No hooks are used."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")


main()
