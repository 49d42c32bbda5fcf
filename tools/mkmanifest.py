#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json: a property is claimed when it has a rule module in fv/rules."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = {
 "P01": ("ownership analysis of parallel regions (abstract evaluation of the Clang AST)", "Every store, container mutation and non-const call reachable inside a TBB region is decided by ownership (created inside, thread-local, atomic, locked, or indexed by an injective function of the iteration index). Trusts the models of TBB/std calls and that bond cursors of sorted lists are disjoint per query point."),
 "P02": ("dependence (taint) analysis of parallel regions", "No range boundary, thread identity, per-chunk leftover, unseeded randomness or unordered gather reaches a stored result. Floating-point summation order is excepted by the property."),
 "P03": ("upward-exposed use analysis over native call sequences", "Fields that compute writes are never read, before being overwritten, on the path to a result when compute runs on a used object."),
 "P04": ("cache-flag typestate analysis over accumulate/read/accumulate sequences", "Every cached reduction is invalidated by accumulation and reset, reads force it, and accumulators are cleared together."),
 "P05": ("escape and fresh-allocation analysis of result arrays", "Computations replace exposed result arrays instead of writing into the ones already returned; bindings hand out arrays with an owner."),
 "P06": ("guard analysis of Python result accessors and of the computed flag", "Each result accessor is guarded by the computed flag, which is only set after a compute returned."),
 "P07": ("shape-linkage analysis from Python calls to binding annotations", "Every array reaching a native call has a checked number of dimensions, fixed columns and a length linked to the array it is paired with."),
 "P08": ("effect and alias analysis of user arguments", "No store, in-place operation or mutating native parameter ever receives memory that may be the caller's."),
 "P09": ("lifetime analysis of native references to Python-owned memory", "Every native object that keeps a raw pointer is kept together with the owner of that memory by the Python object that holds it."),
 "P10": ("guard analysis of bond emission sites", "Every place that emits a bond is dominated by the r_min/r_max/self-exclusion conditions on that bond's own values."),
 "P11": ("provenance analysis of bond vectors and distances", "Each emitted bond's vector is the wrapped point-minus-query-point difference and its distance the length of that vector."),
 "P12": ("index-space typing", "Arrays sized by points or query points are only indexed by the matching kind of index, in native code and across the bindings."),
 "P13": ("guard analysis of histogram bin accesses", "All bin writes go through in-range bins with half-open intervals on every axis."),
 "P14": ("paired-update and cache-invalidation analysis of NeighborList", "All parallel arrays are changed together and the segment cache is invalidated by each change."),
 "P15": ("must-pass-through analysis of neighbor-list validation", "Every user list is validated against the system before any of its bonds is read."),
 "P16": ("dominance analysis of dimensionality checks", "Each dimension-restricted compute checks the box before computing, on every entry."),
 "P17": ("derived-state consistency analysis of Box", "Every setter updates every quantity derived from what it changes; equality covers all parameters."),
 "P18": ("argument-to-parameter provenance across Python, nanobind and C++", "Names agree at each crossing and constructor arguments reach the member their accessor returns."),
 "P19": ("key-flow and exhaustiveness analysis of query arguments", "Each key flows to the native field of the same name; modes and unknown keys are handled exhaustively; dictionaries are copied before defaults are set."),
 "P20": ("length-dimension inference (units as types)", "Additions, comparisons and assignments only combine quantities of equal length dimension in native code."),
 "P21": ("guard analysis of constructor parameters", "Each constrained constructor parameter is range-checked on every path that returns an object."),
 "P22": ("completeness and provenance analysis of __repr__", "Each repr lists every constructor parameter with the value of the matching property."),
 "P23": ("guard analysis of wrapping per direction", "Every per-axis wrap is controlled by that axis' periodic flag and engines refuse boxes they cannot honour."),
 "P24": ("shared-mutable-state analysis (globals, class attributes, defaults, statics)", "No computation writes to a global, class attribute, mutable default or function static."),
}
NA = {
 "N01": "Equality with a mathematical definition quantifies over real-valued inputs and floating-point results; no structural condition decides it. Its structural parts (index spaces, units, wrapping, bins) are separate properties.",
 "N02": "Completeness of the spatial search depends on geometric invariants of runtime data (cell sizes, tree bounds); static guards decide only that what is found is right (P10, P11).",
 "N03": "That concurrent union-find computes connectivity, and that sizes sort, is a property of runtime bond graphs and schedules; the shape of the code only shows the absence of racing writes (P01).",
 "N04": "Invariance under rigid motions is a numerical property of the kernels; a units-like typing cannot express it because code indexes x, y, z separately.",
 "N05": "Optimality of stochastic optimisation is not decidable from the shape of the code.",
 "N06": "Termination and complexity bounds depend on runtime geometry (cells visited, neighbours found).",
}
NYB = {"P20": "Deciding it needs a length dimension for every expression; values, weights and masses have dimensions only the caller knows, wave numbers and bin indices pass through runtime powers and roundings, and float code mixes scales deliberately (for example distance margins), so the inference would have to accept what it should reject or alarm on correct code. Where dimension errors show as exchanged or misnamed lengths they are decided by P16-P18 and P23."}
claimed = [p for p in sorted(C) if os.path.exists(os.path.join(V, "fv/rules/%s.py" % p.lower()))]
checks = [dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p, thorough_cmd="python3 check.py %s --tier thorough" % p,
               technique=C[p][0], level="other", level_note=C[p][1]) for p in claimed]
na = [dict(property=p, reason=NA[p]) for p in sorted(NA)] + \
     [dict(property=p, reason=NYB.get(p, "no check yet")) for p in sorted(C) if p not in claimed]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="Static analysis only: sources of /repo are re-parsed by every check (Clang AST extractor, Python ast); nothing of freud is built or run.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na if x["property"][0] == "P"])
