"""C30: every documented argument takes effect (rules over the dependence analysis)."""
import ast
from .report import Report, SRC
from .influence import Module, Unseen, Tup, flat, params

P = "C30"

# what each argument of the public methods has to reach: a component of the result (r, r0, r1, ...),
# an attribute (.name), the plotting calls (plot), or anything at all (any)
SPEC = """
mpopt.__init__ problem:._ocp n_segments:.n_segments poly_orders:.poly_orders scheme:.colloc_scheme
mpopt.compute_numerical_approximation scheme:.collocation,._compD,._compW,._taus
mpopt.get_discretized_dynamics_constraints_and_cost_matrices phase:r0,r1,r2,.time_grid
mpopt.get_nlp_constraints_for_dynamics f:r0 phase:r0
mpopt.get_nlp_constraints_for_path_contraints c:r0
mpopt.get_nlp_constraints_for_terminal_contraints phase:r0,r3
mpopt.get_nlp_constraints_for_control_input_slope phase:r0
mpopt.get_nlp_constrains_for_control_input_at_mid_colloc_points phase:r0,r1,r2
mpopt.get_nlp_constrains_for_control_slope_continuity_across_segments phase:r0
mpopt.discretize_phase phase:r0,r1,r2,r3
mpopt.get_nlp_variables phase:r0,r1,r2
mpopt.init_solution_per_phase phase:r
mpopt.create_solver solver:.nlp_solver options:.nlp_solver
mpopt.solve initial_solution:r reinitialize_nlp:any solver:.nlp_solver nlp_solver_options:.nlp_solver mpopt_options:r
mpopt.get_solver_warm_start_input_parameters solution:r
mpopt.init_trajectories phase:r
mpopt.process_results solution:r plot:plot scaling:r residual_x:r residual_dx:r
mpopt.compute_states_from_solution_dynamics solution:r0,r1,r2,r3 phase:r0,r1,r2,r3 nodes:r0,r1,r2,r3
mpopt.get_states_residuals solution:r0,r1,r2,r3 phases:r0,r1,r2,r3,plot nodes:r0,r1,r2,r3 residual_type:r3 plot:plot fig:plot? axs:plot
mpopt.get_residual_grid_taus phase:r grid_type:r
mpopt.compute_interpolation_taus_corresponding_to_original_grid nodes_req:r seg_widths:r tau0:r tau1:r
mpopt.get_state_second_derivative solution:r0,r1,r2 grid_type:r0,r1,r2 nodes:r0,r1,r2 plot:plot fig:plot? axs:plot
mpopt.get_state_second_derivative_single_phase solution:r0,r1,r2 phase:r0,r1,r2 nodes:r0,r1,r2 grid_type:r0,r1,r2
mpopt.get_dynamics_residuals solution:r0,r1 nodes:r0,r1 grid_type:r0,r1 residual_type:r1 plot:plot fig:plot? axs:plot
mpopt.get_dynamics_residuals_single_phase solution:r0,r1,r2 phase:r0,r1,r2 target_nodes:r0,r1,r2
mpopt.interpolate_single_phase solution:r0,r1,r2,r3,r4,r5 phase:r0,r1,r2,r3,r4,r5 target_nodes:r0,r1,r2,r4,r5,r6 grid_type:r0,r1,r2,r4,r5,r6
mpopt.get_interpolated_time_grid t_orig:r taus:r poly_orders:r tau0:r tau1:r
post_process.__init__ solution:.solution trajectories:.trajectories options:.options
post_process.get_trajectories phase:r0,r1,r2,r3
post_process.get_original_data phases:r0,r1,r2,r3
post_process.get_interpolation_taus n:r taus_orig:r method:r
post_process.get_non_uniform_interpolation_grid taus_orig:r n:r
post_process.get_interpolated_time_grid t_orig:r taus:r poly_orders:r tau0:r tau1:r
post_process.get_interpolated_data phases:r0,r1,r2,r3 taus:r0,r1,r2
post_process.get_data phases:r0,r1,r2,r3 interpolate:r0,r1,r2
post_process.plot_phase phase:plot interpolate:plot fig:plot?,r0 axs:plot,r1
post_process.plot_phases phases:plot interpolate:plot residuals:plot fig:plot?,r0 axs:plot,r1 tics:plot name:plot
post_process.plot_x dims:plot phases:plot axis:plot interpolate:plot fig:r0 axs:plot,r1 tics:plot
post_process.plot_u dims:plot phases:plot axis:plot interpolate:plot fig:r0 axs:plot,r1 tics:plot name:plot ylabel:plot
post_process.plot_single_variable var_data:plot t:plot dims:plot name:plot ylabel:plot axis:plot fig:r0 axs:plot,r1 tics:plot
post_process.plot_curve ax:r,plot x:plot t:plot name:plot ylabel:plot tics:plot legend_index:plot
post_process.plot_all x:plot u:plot t:plot tics:plot fig:r0 axs:plot,r1 legend:plot name:plot
post_process.sort_residual_data time:r1 residuals:r0 phases:r0,r1
post_process.plot_residuals time:plot residuals:plot phases:plot name:plot fig:r0 axs:plot,r1 tics:plot
mpopt_h_adaptive.__init__ problem:._ocp n_segments:.n_segments poly_orders:.poly_orders scheme:.colloc_scheme
mpopt_h_adaptive.solve initial_solution:r reinitialize_nlp:any solver:.nlp_solver nlp_solver_options:.nlp_solver mpopt_options:r max_iter:r
mpopt_h_adaptive.get_segment_width_parameters solution:r0,r1 options:r0
mpopt_h_adaptive.compute_seg_width_based_on_residuals solution:r0,r1 method:r0
mpopt_h_adaptive.refine_segment_widths_based_on_residuals residuals:r segment_widths:r ERR_TOL:r method:r
mpopt_h_adaptive.get_roots_wrt_equal_area residuals:r n_segments:r
mpopt_h_adaptive.merge_split_segments_based_on_residuals max_residuals:r segment_widths:r ERR_TOL:r
mpopt_h_adaptive.compute_seg_width_based_on_input_slope solution:r0,r1
mpopt_h_adaptive.compute_time_at_max_values t_orig:r du_orig:r threshold:r
mpopt_h_adaptive.compute_segment_widths_at_times times:r n_segments:r t0:r tf:r
mpopt_adaptive.__init__ problem:._ocp,.lbh,.ubh n_segments:.n_segments poly_orders:.poly_orders scheme:.colloc_scheme
mpopt_adaptive.get_nlp_variables phase:r0,r1,r2
mpopt_adaptive.init_solution_per_phase phase:r
mpopt_adaptive.get_nlp_constrains_for_segment_widths phase:r0,r1,r2
mpopt_adaptive.discretize_phase phase:r0,r1,r2,r3
mpopt_adaptive.create_solver solver:.nlp_solver options:.nlp_solver
mpopt_adaptive.solve initial_solution:r reinitialize_nlp:any solver:.nlp_solver nlp_solver_options:.nlp_solver
mpopt_adaptive.init_trajectories phase:r
mpopt_adaptive.process_results solution:r plot:plot scaling:r residual_x:r residual_dx:r
OCP.__init__ n_states:.nx,.scale_x,.x00,.xf0,.lbx,.ubx n_controls:.nu,.scale_u,.u00,.uf0,.lbu,.ubu n_phases:.n_phases,.dynamics,.lbx,.ubx,.lbu,.ubu,.lbt0,.ubtf,.phases_to_plot n_params:.na,.scale_a,.a0,.lba,.uba
OCP.get_dynamics phase:r
OCP.get_path_constraints phase:r
OCP.get_terminal_constraints phase:r
OCP.get_running_costs phase:r
OCP.get_terminal_costs phase:r
OCP.has_path_constraints phase:r
OCP.has_terminal_constraints phase:r
Collocation.__init__ poly_orders:.poly_orders,.roots,.polys scheme:._taus_fn polynomial_type:.poly_fn
Collocation.get_polynomial_function polynomial_type:r
Collocation.init_polynomials poly_orders:.roots,.polys
Collocation.init_polynomials_with_customized_roots roots_dict:.roots,.polys
Collocation.get_diff_matrix key:r taus:r order:r
Collocation.get_quadrature_weights key:r tau0:r tau1:r
Collocation.get_interpolation_matrix taus:r degree:r
Collocation.get_diff_matrices poly_orders:r order:r
Collocation.get_interpolation_Dmatrices_at taus:r keys:r order:r
Collocation.get_quad_weight_matrices keys:r tau0:r tau1:r
Collocation.get_interpolation_matrices taus:r poly_orders:r
Collocation.get_lagrange_polynomials roots:r
Collocation.get_composite_differentiation_matrix poly_orders:r order:r
Collocation.get_composite_quadrature_weights poly_orders:r tau0:r tau1:r
Collocation.get_composite_interpolation_matrix taus:r poly_orders:r
Collocation.get_composite_interpolation_Dmatrix_at taus:r poly_orders:r order:r
CollocationRoots.__init__ scheme:.scheme,._taus_fn
CollocationRoots.get_collocation_points scheme:r
CollocationRoots.roots_legendre_gauss tau_min:r tau_max:r
CollocationRoots.roots_legendre_gauss_radau tau_min:r tau_max:r
CollocationRoots.roots_legendre_gauss_lobatto tau_min:r tau_max:r
CollocationRoots.roots_chebyshev_gauss_lobatto tau_min:r tau_max:r
.solve ocp:r0,r1 n_segments:r0,r1 poly_orders:r0,r1 scheme:r0,r1 plot:plot solve_dict:r1 residual_x:r1 residual_dx:r1
mpopt_ph_adaptive.__init__ problem:._ocp n_segments:.n_segments poly_orders:.poly_orders scheme:.colloc_scheme grid_type:._GRID_TYPE max_residual:.max_residual poly_order_min:.poly_order_min poly_order_max:.poly_order_max seg_min:.min_segments seg_max:.max_segments n_grid_points:._MAX_GRID_POINTS non_smooth_threshold:.non_smooth_threshold
mpopt_ph_adaptive.get_abs_max_residual residual:r
mpopt_ph_adaptive.solve_ph max_iter:r solve_dict:r
"""

# arguments that choose what is computed or drawn: replacing one nobody has looked at loses a request
CHOICES = {"fig", "axs", "ax", "phases", "phase", "nodes", "grid_type", "dims", "axis", "tics", "taus", "solution", "options",
           "method", "interpolate", "residual_type", "order", "keys", "key", "n_segments", "poly_orders", "scheme", "max_iter",
           "initial_solution", "mpopt_options", "nlp_solver_options", "solver", "solve_dict", "plot", "name", "ylabel", "target_nodes",
           "residual_x", "residual_dx", "scaling", "reinitialize_nlp", "tau0", "tau1", "legend", "legend_index", "residuals",
           "threshold", "ERR_TOL", "max_residual", "poly_order_min", "poly_order_max", "seg_min", "seg_max", "n_grid_points",
           "non_smooth_threshold", "polynomial_type", "problem", "n_states", "n_controls", "n_phases", "n_params", "degree"}


def spec():
    out = []
    for line in SPEC.strip().splitlines():
        head, *rest = line.split()
        c, n = head.rsplit(".", 1)
        out.append((c or None, n, {r.split(":")[0]: r.split(":")[1].split(",") for r in rest}))
    return out


def reaches(sm, p, t, plotted):
    """does parameter p reach target t; None when the shape of the function leaves it open"""
    if t == "any":
        return (sm.ret is not None and p in flat(sm.ret)) or any(p in v for v in sm.eff.values())
    if t == "plot?":
        return any(p in v or "?" + p in v for k, v in sm.eff.items() if k.startswith("call "))
    if t == "plot":
        return any(p in v for k, v in sm.eff.items() if k.startswith("call "))
    if t[0] == ".":
        hit = [v for k, v in sm.eff.items() if k == "self" + t]
        if not hit:
            return None          # kept elsewhere
        return any(p in v for v in hit)
    if sm.ret is None:
        return None
    if t == "r":
        return p in flat(sm.ret)
    i = int(t[1:])
    if isinstance(sm.ret, Tup):
        if i >= len(sm.ret.e):
            return None
        return p in flat(sm.ret.e[i])
    return p in sm.ret


def find(mod, c, n):
    """the function called n on class c, wherever it is now"""
    if (c, n) in mod.funcs:
        return (c, n)
    for b in mod.bases(c) if c else ():
        if (b, n) in mod.funcs:
            return (b, n)
    return None


def run(seed, tier, path=SRC, prop=None):
    rep = Report()
    mod = Module(path)
    rep.rules += ["an argument reaches the result, state or drawing it is documented for (data or control dependence)",
                  "an argument is not replaced on a path before anything has looked at it"]
    for c, n, want in spec():
        k = find(mod, c, n)
        where = "%s.%s" % (c, n) if c else n
        if k is None:
            rep.undec(where, "not found")
            continue
        node, sm = mod.funcs[k], mod.sums[k]
        rep.analysed.add(where)
        here = params(node)
        for p, targets in want.items():
            if p not in here:
                rep.undec(where, "no argument %s" % p)
                continue
            for t in targets:
                rep.ob("argument reaches what it is documented for", 1)
                r = reaches(sm, p, t, None)
                if r is None:
                    # moved to another place: anything at all will do
                    r = reaches(sm, p, "any", None)
                if not r:
                    rep.add(P, "argument without effect", "%s: %s" % (where, p), "does not reach %s" % NAMES(t))
    for k, node in mod.funcs.items():
        if k[1].startswith("_") and k[1] != "__init__":
            continue
        where = "%s.%s" % k if k[0] else k[1]
        for p in params(node):
            if p in CHOICES:
                rep.ob("argument not replaced unseen", 1)
        for p, line in Unseen(node).found:
            if p in CHOICES:
                rep.add(P, "argument replaced before it was looked at", "%s: %s" % (where, p), "line %d" % line)
    return rep


def NAMES(t):
    if t == "any":
        return "the result or any state"
    if t in ("plot", "plot?"):
        return "the plotting calls"
    if t[0] == ".":
        return "attribute " + t[1:]
    return "the result" + (" (component %s)" % t[1:] if t[1:] else "")
