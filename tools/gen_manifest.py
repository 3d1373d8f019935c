#!/usr/bin/env python3
"""Writes MANIFEST.json from the tables below and properties.jsonl."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]

GRAPH = ("gated value-graph dataflow analysis (abstract interpretation with symbolic sizes, loop summaries, branch "
         "gates) with term equality against a specification")
CLAIMS = {}
for i in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11"]:
    CLAIMS[i] = (GRAPH, "Every NLP row, bound, variable, callback argument and objective term of all four optimizers "
                 "is derived from the source for symbolic sizes and compared with the specification term by term; "
                 "term equality is decided by normal forms and random interpretation at sampled sizes and switches.")
CLAIMS["C12"] = (GRAPH, "The composite matrices are derived from the source for symbolic orders and evaluation points, "
                 "with opaque per-segment operators, and compared entry by entry with the segment's own operator.")
POSTN = ("The terms that data retrieval, interpolation, residual and grid methods return for a symbolic solution of a "
         "symbolically built problem are compared with the specification for symbolic phases, segments, orders and "
         "grids; equality is decided by normal forms and random interpretation at sampled sizes.")
for i in ["C15", "C16", "C17", "C18", "C19"]:
    CLAIMS[i] = (GRAPH, POSTN)

SOLVEN = ("The solver-creation and solver-call events of solve() histories (solve, again, rebuild, reset) are derived "
          "from the source with unknown gates for every run-time decision, and plugin, options, bounds, starting "
          "values, widths, flags and kept widths are compared with the specification.")
for i in ["C23", "C25", "C26"]:
    CLAIMS[i] = (GRAPH, SOLVEN)

EFF = "flow-sensitive points-to and side-effect analysis over the syntax tree, following calls from every public entry"
CLAIMS["C20"] = (EFF, "No public entry writes the caller's problem, class level, module level or default objects; an "
                 "optimizer keeps no mutable part of the caller's problem or grid lists. Objects behind numpy and "
                 "casadi are covered by summaries of those libraries.")
CLAIMS["C21"] = (EFF, "No public entry writes an object reachable from its arguments or default values, nor later an "
                 "object it kept from the caller. Library calls are summarised.")
CLAIMS["C22"] = (EFF, "No query writes the optimizer, except new entries of the collocation table whose keys are shown "
                 "not to be degrees, nor the solution it is given.")

CLAIMS["C13"] = (GRAPH, "The node sequence of every scheme is derived from the source as a term in the degree and the "
                 "interval limits (library Gauss rules summarised by their definition) and its number, ends and family "
                 "compared with the specification, as are the limits reported to post processing.")
CLAIMS["C14"] = (GRAPH, "Basis, differentiation, interpolation and quadrature operators are derived for symbolic degree, "
                 "nodes, points and limits with both back ends (loops kept as recurrences; polynomial derivative and "
                 "integral of numpy and casadi summarised by their definition) and compared with the Lagrange formulas.")
CLAIMS["C27"] = (GRAPH + "; points-to analysis of the constructor", "Every setting a new problem holds is derived from "
                 "OCP.__init__ for symbolic sizes and compared with its neutral default and size; default functions are "
                 "called with and without parameters; points-to sets show that no two settings share an object.")
CLAIMS["C28"] = (GRAPH, "Every assertion and raise of validate is derived as a term over independent sizes and bounds; "
                 "on consistent problems none is reachable with a false condition, and every single inconsistency, at "
                 "every phase and component of sampled sizes, makes one fail.")
CLAIMS["C29"] = (GRAPH, "Every call of a user function reachable from building, residual queries, presence checks, getters "
                 "and validation is derived with its number of arguments and phase, with and without parameters.")
CLAIMS["C24"] = (GRAPH, "The widths every refinement method returns are derived for symbolic residuals (with missing "
                 "segments), tolerances, limits, times and previous widths; partition, locality, limits and the reported "
                 "error are compared at sampled sizes, the helper of the slope method being summarised and checked alone.")

CLAIMS["C31"] = ("definite-assignment and name-resolution analysis over the syntax tree", "Every read of a local, global, "
                 "attribute and library name, every call with a known signature, every unpacking and every key of an optional "
                 "dictionary in all functions is checked on every path; guards are boolean formulas, so correlated tests are "
                 "understood.")

CLAIMS["C30"] = ("interprocedural data and control dependence analysis over the syntax tree", "For each argument of each public "
                 "method the components of the result, the attributes and the drawing it must be able to change are tabled; a "
                 "missing dependence (over-approximated, so certain) or a request replaced unseen is reported.")

CLAIMS["C32"] = (GRAPH, "Every curve, label and axis handed to matplotlib by the plotting methods is derived for symbolic data, "
                 "phases, dimensions and axes, with and without interpolation and caller's axes, and compared with the data "
                 "retrieved for the same request at sampled sizes.")

NA = {
    "C33": "convergence of the discretised optimum to the continuous optimum is a numerical statement about the "
           "solver's iterates; no static argument over this source bounds it",
    "C34": "whether refinement reaches the tolerance or worsens a residual depends on the run-time iterates of IPOPT; "
           "the static part (stored widths, reported reasons) is C23 and C24",
    "C35": "exactness up to floating point accuracy is a rounding-error statement about run-time arithmetic; the "
           "symbolic identity of the operators is C14",
}
PENDING = "no check built yet"

checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        t, note = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i,
                       "thorough_cmd": "python3 check.py %s thorough" % i, "technique": t,
                       "level": "other", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, PENDING)})
json.dump({"version": 1, "setup_cmd": "python3 -c 'import ast'", "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
