"""C20, C21, C22: which existing objects can be written by a public call, and what an optimizer keeps of the caller's.

Every public entry of the module is analysed with the points-to and effect analysis of effects.py; the rules below
are stated on its result: writes to objects that existed before the call, and objects of the caller that the receiver
still reaches afterwards.
"""
import ast
from .effects import Tree, Analysis, Ext, Alloc, mutable_default, default_of
from .report import Report, SRC, pmap

OPT = ["mpopt", "mpopt_h_adaptive", "mpopt_adaptive", "mpopt_ph_adaptive"]
QUERIES = ["process_results", "compute_states_from_solution_dynamics", "get_states_residuals", "get_residual_grid_taus",
           "compute_interpolation_taus_corresponding_to_original_grid", "get_state_second_derivative",
           "get_state_second_derivative_single_phase", "get_dynamics_residuals", "get_dynamics_residuals_single_phase",
           "interpolate_single_phase", "get_interpolated_time_grid", "init_trajectories"]
PUBLIC = {
    "mpopt": QUERIES + [
        "__init__", "reset_mpopt", "compute_numerical_approximation", "create_variables", "init_segment_width",
        "get_discretized_dynamics_constraints_and_cost_matrices", "get_nlp_constraints_for_dynamics",
        "get_nlp_constraints_for_path_contraints", "get_nlp_constraints_for_terminal_contraints",
        "get_nlp_constraints_for_control_input_slope", "get_nlp_constrains_for_control_input_at_mid_colloc_points",
        "get_nlp_constrains_for_control_slope_continuity_across_segments", "discretize_phase",
        "get_event_constraints", "get_nlp_variables", "create_nlp", "init_solution_per_phase", "initialize_solution",
        "get_segment_width_parameters", "create_solver", "solve", "get_solver_warm_start_input_parameters", "validate"],
    "mpopt_h_adaptive": [
        "__init__", "solve", "get_segment_width_parameters", "compute_seg_width_based_on_residuals",
        "refine_segment_widths_based_on_residuals", "get_roots_wrt_equal_area",
        "merge_split_segments_based_on_residuals", "compute_seg_width_based_on_input_slope",
        "compute_time_at_max_values", "compute_segment_widths_at_times"] + QUERIES,
    "mpopt_adaptive": ["__init__", "get_nlp_variables", "init_solution_per_phase", "discretize_phase",
                       "get_nlp_constrains_for_segment_widths", "create_solver", "solve"] + QUERIES,
    "mpopt_ph_adaptive": ["__init__", "get_abs_max_residual", "solve_ph"] + QUERIES,
    "post_process": ["__init__", "get_trajectories", "get_original_data", "get_interpolation_taus",
                     "get_non_uniform_interpolation_grid", "get_interpolated_time_grid", "get_interpolated_data",
                     "get_data", "plot_phase", "plot_phases", "plot_x", "plot_u", "plot_single_variable", "plot_curve",
                     "plot_all", "sort_residual_data", "plot_residuals"],
    "OCP": ["__init__", "get_dynamics", "get_path_constraints", "get_terminal_constraints", "get_running_costs",
            "get_terminal_costs", "has_path_constraints", "has_terminal_constraints", "validate"],
    "Collocation": ["__init__", "get_diff_matrix_fn", "get_quadrature_weights_fn", "get_polynomial_function",
                    "init_polynomials", "init_polynomials_with_customized_roots", "get_diff_matrix",
                    "get_quadrature_weights", "get_interpolation_matrix", "get_diff_matrices",
                    "get_interpolation_Dmatrices_at", "get_quad_weight_matrices", "get_interpolation_matrices",
                    "get_lagrange_polynomials", "get_composite_differentiation_matrix",
                    "get_composite_quadrature_weights", "get_composite_interpolation_matrix",
                    "get_composite_interpolation_Dmatrix_at"],
    "CollocationRoots": ["__init__", "get_collocation_points"],
    None: ["solve", "get_segment_boundaries"],
}
POST_QUERIES = [m for m in PUBLIC["post_process"] if m != "__init__"]
SELF = ("self",)


def own_methods(t, c):
    """public entries of c; inherited ones are analysed once more with the inheriting class"""
    if c is None:
        return [(None, n, t.funcs[n]) for n in PUBLIC[None] if n in t.funcs]
    out = []
    for n in PUBLIC[c]:
        m = t.method(c, n)
        if m:
            out.append((c, n, m[1]))
    return out


def readers(t):
    """attribute -> functions that read it"""
    out = {}
    for c in t.classes:
        for n, f in t.classes[c].items():
            for s in ast.walk(f):
                if isinstance(s, ast.Attribute) and isinstance(s.ctx, ast.Load):
                    out.setdefault(s.attr, set()).add("%s.%s" % (c, n))
                elif isinstance(s, ast.Call) and isinstance(s.func, ast.Name) and s.func.id in ("getattr", "hasattr") \
                        and len(s.args) > 1 and isinstance(s.args[1], ast.Constant):
                    out.setdefault(s.args[1].value, set()).add("%s.%s" % (c, n))
    return out


def analyse(job):
    path, c, n = job
    t = Tree(path)
    f = t.method(c, n)[1] if c else t.funcs[n]
    a = Analysis(t, c, f)
    try:
        a.run()
    except RecursionError:
        return job, None
    ev = []
    for (o, fld, what, line, fr), chain in a.events.items():
        ev.append((o.root, o.path, fld, what, line, fr[0] if isinstance(fr, tuple) else str(fr),
                   [x[0] for x in chain]))
    kept = []
    if c and getattr(a, "me", None) is not None:
        if isinstance(a.me, Alloc):
            kept = [(o.root, o.path, p) for o, p in a.reach(a.final, a.me)]
        else:
            for (o, fld), vals in a.final.heap.items():
                if isinstance(o, Ext) and o.root == "self":
                    for v in vals:
                        for x, p in a.reach(a.final, v):
                            if x.root != "self":
                                kept.append((x.root, x.path, o.path + (fld,) + p))
    kinds = {}
    for r, p, _ in kept:
        kinds[(r, p)] = a.kind(Ext(r, p))
    restored = [fld for (o, fld), v in a.final.heap.items()
                if isinstance(o, Ext) and o.root == "self" and not o.path and v == frozenset([Ext("self", (fld,))])]
    seen = sorted(a.seen | {("%s." % c if c else "") + n})
    return job, (ev, [(r, p, q, kinds[(r, p)]) for r, p, q in kept], seen, a.steps, restored)


def where(c, n):
    return ("%s.%s" % (c, n)) if c else n


def run(seed, tier, path=SRC, prop=None):
    rep = Report()
    t = Tree(path)
    jobs = []
    for c in PUBLIC:
        if c is not None and c not in t.classes:
            rep.undec("class %s" % c, "not found")
            continue
        have = own_methods(t, c)
        for n in PUBLIC[c]:
            if n not in [x[1] for x in have]:
                rep.undec(where(c, n), "no such entry")
        for c_, n, f in have:
            if prop == "C22" and not (n in QUERIES and c in OPT or c == "post_process"):
                continue
            jobs.append((path, c_, n))
    heavy = ("solve_ph", "solve")
    jobs.sort(key=lambda j: (j[2] not in heavy, j[2] != "solve_ph"))
    results = dict(pmap(analyse, jobs, rep))
    rd = readers(t)
    kept_args = {}      # class -> {attribute of self: argument}, objects of the caller kept by reference
    for (pth, c, n), r in results.items():
        if r is None:
            continue
        for root, pth_, at, kind in r[1]:
            if root.startswith("argument ") and at and c:
                kept_args.setdefault(c, {}).setdefault(tuple(map(norm, at)), (root, n))
    for (pth, c, n), r in sorted(results.items(), key=lambda x: (str(x[0][1]), x[0][2])):
        w = where(c, n)
        if r is None:
            rep.undec(w, "recursion limit")
            continue
        ev, kept, seen, steps, restored = r
        rep.analysed |= set(seen)
        rep.ob("statements interpreted", steps)
        rep.ob("public entries", 1)
        query = (n in QUERIES and c in OPT) or (c == "post_process" and n in POST_QUERIES)
        for root, p, fld, what, line, fn, chain in ev:
            rep.ob("writes to objects that existed before the call", 1)
            name = root + "".join(x if x.startswith("[") else "." + x for x in p)
            cons = "%s: %s of %s in %s" % (w, what, name + (fld if fld.startswith("[") else "." + fld), fn)
            det = "line %d, reached by %s" % (line, " -> ".join(chain[-6:]))
            if root.startswith(("argument ", "default of ")):
                if root in ("argument problem", "argument ocp"):
                    rep.add("C20", "the user's problem object is not written", cons, det)
                elif c in OPT + ["post_process", None] or n == "__init__":
                    rep.add("C21", "objects passed by the caller and default values are not written", cons, det)
                else:
                    rep.add("C21", "objects passed by the caller and default values are not written", cons, det)
                if query and root.startswith("argument "):
                    rep.add("C22", "queries do not write the solution or options they are given", cons, det)
                if root.startswith("default of ") and ".__init__(" in root:
                    rep.add("C20", "no data shared through default arguments", cons, det)
            elif root.startswith("class ") or root.startswith("module"):
                rep.add("C20", "no data shared between optimizers", cons, det)
            elif root == "self":
                top = p[0] if p else fld
                q = tuple(map(norm, p))
                for k in range(1, len(q) + 1):
                    if q[:k] in kept_args.get(c, {}):
                        # the object may be the caller's: writing through it changes what the caller passed
                        rep.add("C21", "objects kept from the caller are not written later", cons,
                                det + "; kept from %s of %s" % kept_args[c][q[:k]])
                if query:
                    if what == "write" and cache_write(p, fld, fn):
                        continue
                    if not p and fld in restored:
                        continue
                    others = rd.get(top, set()) - {fn}
                    if p or others:
                        rep.add("C22", "queries do not write the optimizer", cons,
                                det + "; %s is read by %s" % (top, ", ".join(sorted(others)[:4])))
        if n in ("__init__", "reset_mpopt") and c in OPT + ["Collocation"] or c in OPT and not query:
            for root, p, at, kind in kept:
                rep.ob("objects kept by an optimizer", 1)
                if root in ("argument solution", "argument initial_solution"):
                    continue
                if kind in ("scalar", "str", "func") or p and not root.startswith(("argument problem", "argument ocp")):
                    continue
                nm = root + "".join(x if x.startswith("[") else "." + x for x in p)
                if root in ("argument problem", "argument ocp"):
                    rep.add("C20", "the optimizer keeps a private copy of the problem", "%s: %s kept in self.%s" % (
                        w, nm, ".".join(at)), "%s is reachable from the optimizer after the call" % nm)
                elif root.startswith("argument ") and kind in ("list", "dict", "array", "array1", "array2",
                                                               "list:scalar", "?") and n == "__init__" and c in OPT \
                        and (root[9:] in ("n_segments", "poly_orders", "scheme")):
                    rep.add("C20", "no mutable grid data shared with the caller", "%s: %s kept in self.%s" % (
                        w, nm, ".".join(at)), "%s is reachable from the optimizer after the call" % nm)
                elif root.startswith("default of ") and c in OPT:
                    rep.add("C20", "no data shared through default arguments", "%s: %s kept in self.%s" % (
                        w, nm, ".".join(at)), "the same object serves every call")
    rep.rules = ["no public entry writes an object of the caller or a default value", "no public entry writes class "
                 "level, module level or shared data", "an optimizer keeps no mutable part of the caller's problem or "
                 "of the caller's grid lists", "queries write neither the optimizer nor their arguments, apart from "
                 "the collocation's table of polynomials"]
    if prop in (None, "C22"):
        from . import tablecheck
        rep.merge(tablecheck.run(seed, tier, path))
    return rep


def norm(f):
    return "[]" if f.startswith("[") else f


def cache_write(p, fld, fn):
    """the collocation object's table of nodes and polynomials, checked by value in tablecheck"""
    return fn.startswith("Collocation.") and p and p[-1] in ("roots", "polys") and fld.startswith("[")
