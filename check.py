#!/usr/bin/env python3
"""check.py <property>: static check of one property on /repo's current source."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from sa import report

NLP = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11"]
EXPL_NLP = ("Gated value-graph dataflow analysis of the transcription: the optimizer classes are interpreted "
            "abstractly from construction to solver creation with symbolic numbers of phases, segments, orders, "
            "states, controls and parameters (loops summarised, branches joined with gates); the resulting term "
            "graphs of constraint vector, bounds, objective, variables, starting point and callback arguments are "
            "compared with the specification by normalisation and random interpretation of the uninterpreted terms.")

OTHER = {
    "C12": ("collcheck", "Gated value-graph dataflow analysis of the composite operators with opaque per-segment "
            "operators: every entry of the resulting matrices is a term over segment index, order and evaluation "
            "points and is compared with the segment's own entry, or zero."),
}
EXPL_POST = ("Gated value-graph dataflow analysis of solution retrieval, interpolation, grids and residuals, applied to "
             "an optimizer built symbolically and a symbolic solution vector; the resulting terms are compared with "
             "the specification by normalisation and random interpretation.")
for _p in ("C15", "C16", "C17", "C18", "C19"):
    OTHER[_p] = ("postcheck", EXPL_POST)
EXPL_SOLVE = ("Gated value-graph dataflow analysis of create_solver/solve/reset and the refinement loops, with the solver "
              "calls kept as recorded uninterpreted events; loop decisions on run-time numbers are unknown gates, so "
              "every combination of outcomes is covered.")
for _p in ("C23", "C25", "C26"):
    OTHER[_p] = ("solvecheck", EXPL_SOLVE)
EXPL_EFF = ("Flow-sensitive points-to and effect analysis over the syntax tree: every public entry is analysed with "
            "abstract objects for the receiver, the caller's arguments, default values, class and module level objects "
            "and allocation sites; calls into the module are followed; the writes to objects that existed before the "
            "call and the caller's objects kept afterwards are checked against the rules.")
for _p in ("C20", "C21", "C22"):
    OTHER[_p] = ("effectcheck", EXPL_EFF)

for _p in ("C27", "C28", "C29"):
    OTHER[_p] = ("ocpcheck", "Gated value-graph dataflow analysis of the problem class (constructor, getters, presence "
                 "checks, validation) and of every call of a user function, with symbolic sizes; assertions and raises "
                 "are terms evaluated over consistent and singly inconsistent problems.")

for _p in ("C13", "C14"):
    OTHER[_p] = ("nodecheck", "Gated value-graph dataflow analysis of node placement and basis operators: nodes, basis "
                 "polynomials and operator entries are terms (recurrences over the nodes) in symbolic degree, nodes, "
                 "points and limits, compared with the specification by random interpretation.")

OTHER["C24"] = ("widthcheck", "Gated value-graph dataflow analysis of the refinement step of the h-adaptive optimizer with "
                "symbolic residuals, tolerances, limits, times and previous widths (grouping, sorting and selection kept as "
                "delayed operators); the helper of the slope method is summarised in its caller and checked on its own; the "
                "resulting width terms are compared with the partition rules by random interpretation.")

OTHER["C31"] = ("namecheck", "Definite-assignment and name-resolution analysis over the syntax tree of every function: locals "
                "under normalised boolean guards, attributes against class tables, library names against frozen tables of the "
                "installed libraries, call arguments against signatures, unpackings against the arity of what is returned, "
                "keys of optional dictionaries against the tests that guard them.")

OTHER["C30"] = ("argcheck", "Data and control dependence analysis over the syntax tree with summaries of every function of the "
                "module: each argument of the public methods is followed to the component of the result, the state or the "
                "drawing it is documented for; arguments replaced before anything has looked at them are reported.")

OTHER["C32"] = ("plotcheck", "Gated value-graph dataflow analysis of the plotting methods with recording axes: every curve and label "
                "handed to matplotlib is derived for symbolic data, dimensions, phases and axes and compared with the data "
                "retrieved for the request; the phases handed to every residual plot are compared with the ones to plot.")


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if prop in NLP:
        from sa import nlpcheck
        rep = nlpcheck.run(seed, tier)
        return report.finish(prop, rep, tier, seed, t0, EXPL_NLP)
    if prop in OTHER:
        mod, expl = OTHER[prop]
        import importlib
        rep = importlib.import_module("sa." + mod).run(seed, tier, prop=prop)
        return report.finish(prop, rep, tier, seed, t0, expl)
    print("unknown property", prop)
    return 2


if __name__ == "__main__":
    sys.exit(main())
