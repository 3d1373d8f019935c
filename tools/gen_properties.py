#!/usr/bin/env python3
"""Generates properties.jsonl (kept as a script so that statements are easy to review and edit)."""
import json, os
M = "mpopt/mpopt.py"
P = []

def p(id, title, statement, over, qtext, why, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": [M],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })

ALLDIMS = "every number of states, controls, parameters, phases, segments, every polynomial order per segment, every scale factor, every user function"

p("C01", "User functions always see original units of one phase and node",
  "Whenever the NLP is built, every user supplied function (dynamics, path constraints, running cost, terminal cost, terminal constraints) is evaluated on states, controls, time and parameters expressed in the user's own (unscaled) units, in the documented argument order. All arguments of one evaluation belong to the same phase and the same collocation node, and terminal functions receive that phase's final state, final time, initial state and initial time. Each phase uses its own functions.",
  ["inputs", "configurations"], ALLDIMS,
  "Every stable test except one runs with all scale factors 1, and the multi-phase test shares one dynamics function, so a missing or wrong unscaling, a swapped argument or a wrong phase's function is invisible.",
  [("evaluation of the user functions at the nodes", f"{M}:mpopt.get_discretized_dynamics_constraints_and_cost_matrices"),
   ("evaluation of the terminal functions", f"{M}:mpopt.get_nlp_constraints_for_terminal_contraints"),
   ("mid point dynamics of the adaptive optimizer", f"{M}:mpopt_adaptive.get_nlp_constrains_for_segment_widths"),
   ("selection of the phase's function", f"{M}:OCP.get_*")],
  observe=["arguments received by the user's callbacks"])

p("C02", "Every decision variable is bounded by its own user bounds",
  "In the NLP of every optimizer, each entry of the variable vector (state, control, start time, end time, parameter) lies between the lower and upper bound the user gave for that quantity in that phase, multiplied by that quantity's scale factor; lower and upper are never exchanged. The state at the first node of the first phase is fixed to the user's initial state, and no other node is fixed that way.",
  ["inputs", "configurations"], ALLDIMS,
  "Tests compare only lengths of the bound vectors; with scale 1, one control and one phase a permuted, unscaled or wrong-phase bound gives the same numbers.",
  [("variable vector and bounds", f"{M}:mpopt.get_nlp_variables"), ("adaptive variant", f"{M}:mpopt_adaptive.get_nlp_variables"),
   ("assembly over phases", f"{M}:mpopt.create_nlp")],
  observe=["nlp_bounds lbx/ubx against nlp x"])

p("C03", "The default starting point matches the variable vector entry by entry",
  "When no initial solution is supplied, the starting point has one entry for each decision variable, in the same order as the variable vector, phase after phase. State and control entries are the straight-line interpolation, over the phase's guessed time span, between the guesses the user gave for that component at the start and end of the phase, and time and parameter entries are the user's guesses, all multiplied by the scale factor of the quantity.",
  ["inputs", "configurations"], ALLDIMS,
  "Tests check the length only; with one control, any ordering of the control block is the same vector.",
  [("guess per phase", f"{M}:mpopt.init_solution_per_phase"), ("adaptive variant", f"{M}:mpopt_adaptive.init_solution_per_phase"), ("assembly", f"{M}:mpopt.initialize_solution")],
  observe=["x0 passed to the NLP solver"])

p("C04", "Dynamics are imposed at every node of every phase for every state",
  "For every phase, every collocation node and every state the NLP contains exactly one equality (both bounds zero) saying that the derivative of the interpolating polynomial of that state equals half the phase duration (for the unit interval, the duration) times that segment's width fraction times the scaled dynamics of that state at that node. Rows pair with the same state and node on both sides for any number of states.",
  ["inputs", "configurations"], ALLDIMS,
  "Tests solve a few problems with one or two states, scale 1 and equal segments; errors in row pairing, segment index or scaling need other sizes or unequal segments to show.",
  [("collocated dynamics", f"{M}:mpopt.get_nlp_constraints_for_dynamics"), ("discretisation", f"{M}:mpopt.get_discretized_dynamics_constraints_and_cost_matrices")],
  observe=["constraint vector g, lbg, ubg"])

p("C05", "Path and terminal constraints are imposed wherever the user declared them",
  "For every phase with path constraints, the NLP contains every component of the path constraint at every collocation node, required to be less than or equal to zero and unbounded below; for every phase with terminal constraints, every component is required to equal zero. A phase without such constraints contributes none, and the presence of constraints in one phase never depends on another phase.",
  ["inputs", "configurations"], ALLDIMS + ", every subset of phases having constraints",
  "The only multi-phase tests give all phases the same constraints or check just lengths.",
  [("path", f"{M}:mpopt.get_nlp_constraints_for_path_contraints"), ("terminal", f"{M}:mpopt.get_nlp_constraints_for_terminal_contraints"), ("assembly", f"{M}:mpopt.discretize_phase"), ("detection", f"{M}:OCP.has_path_constraints, OCP.has_terminal_constraints")],
  observe=["constraint vector g, lbg, ubg"])

p("C06", "Optional control constraints act exactly in the phases that enable them",
  "For each phase, limits on the control slope, bounds on the control midway between nodes and continuity of the control slope across segments are part of the NLP if and only if that phase enables them (mid points are always bounded when segment widths are free), for every control. Slopes are those of the scaled control's interpolating polynomial with respect to the normalised position in the segment: they lie between the user's lower and upper slope limits at every node, their jumps from the end of one segment to the start of the next are zero, and mid point controls lie between the phase's scaled control bounds.",
  ["inputs", "configurations"], ALLDIMS + ", every combination of the option flags per phase",
  "One test switches the options on for a single phase and a single control and checks only that a solution is returned.",
  [("slope limits", f"{M}:mpopt.get_nlp_constraints_for_control_input_slope"), ("mid points", f"{M}:mpopt.get_nlp_constrains_for_control_input_at_mid_colloc_points"), ("continuity", f"{M}:mpopt.get_nlp_constrains_for_control_slope_continuity_across_segments")],
  observe=["constraint vector g, lbg, ubg"])

p("C07", "The objective is the Bolza cost summed once over all phases",
  "The NLP objective equals, summed once over every phase, that phase's terminal cost plus the quadrature of its running cost, where the running cost of every node of a segment, its first node included, is multiplied by that segment's time step and by the node's quadrature weight in that segment. A node shared by two segments therefore contributes once for each, and no phase or node is omitted or counted more often.",
  ["inputs", "configurations"], ALLDIMS,
  "Tests do not assert costs of multi-phase or unequal-segment problems.",
  [("cost assembly", f"{M}:mpopt.discretize_phase, mpopt.create_nlp"), ("adaptive", f"{M}:mpopt_adaptive.discretize_phase")],
  observe=["nlp f"])

p("C08", "Linked phases join in state, control and time",
  "In a multi-phase problem, for every declared link from one phase to another the NLP requires the first node of the later phase minus the last node of the earlier phase to lie, for each state, between the user's lower and upper jump limits of that link (scaled like the state), to be zero for each control, and the later phase's start time to equal the earlier phase's end time. A single-phase problem has no such rows.",
  ["inputs", "configurations"], "every number of phases, every list of links, states, controls and scale factors",
  "Tests use two phases with zero jumps and scale 1.",
  [("event constraints", f"{M}:mpopt.get_event_constraints"), ("assembly", f"{M}:mpopt.create_nlp")],
  observe=["tail of constraint vector g, lbg, ubg"])

p("C09", "Constraint rows and their bounds stay paired in every optimizer",
  "In the NLP of every optimizer, the constraint vector, its lower bounds and its upper bounds have the same number of entries and list the same constraint families in the same order for every phase, whichever families are present; likewise for the variable vector and its bounds. The problem handed to the solver and the bounds used at solve time are those vectors, under their standard names.",
  ["inputs", "configurations"], ALLDIMS + ", every subset of constraint families",
  "Tests compare the lengths for one configuration.",
  [("merging", f"{M}:mpopt.discretize_phase, mpopt_adaptive.discretize_phase"), ("nlp dictionaries", f"{M}:mpopt.create_nlp")],
  observe=["create_nlp result"])

p("C10", "Node times follow the segment widths",
  "The time of every collocation node equals the phase's start time plus the phase duration times (the sum of the width fractions of the earlier segments plus the node's normalised position within its segment times that segment's width fraction), in the user's time units. Node number, segment number and position within the segment agree for every list of polynomial orders, including different orders per segment.",
  ["inputs", "configurations"], "every list of polynomial orders and segment widths, every phase",
  "Tests use equal orders, and mostly equal widths.",
  [("time grid", f"{M}:mpopt.get_discretized_dynamics_constraints_and_cost_matrices"), ("trajectories", f"{M}:mpopt.init_trajectories")],
  observe=["t returned by post processing"])

p("C11", "Free segment widths are kept a valid partition of each phase",
  "When segment widths are decision variables, each phase's widths are bounded by that phase's user settable minimum and maximum, start from equal fractions, and are required to sum to exactly one. The controls and states midway between nodes are kept within that phase's scaled bounds, and, when enabled, the mid point dynamics residual of every state is kept within plus or minus that phase's tolerance.",
  ["inputs", "configurations"], ALLDIMS,
  "Tests run two single-phase problems and check that a solution exists.",
  [("segment width constraints", f"{M}:mpopt_adaptive.get_nlp_constrains_for_segment_widths"), ("width bounds", f"{M}:mpopt_adaptive.get_nlp_variables"), ("initial widths", f"{M}:mpopt_adaptive.init_solution_per_phase")],
  observe=["constraint vector g, lbg, ubg of the adaptive optimizer"])

p("C12", "Composite operators act segment by segment",
  "For every list of polynomial orders and every list of evaluation points per segment, the composite differentiation, interpolation and point-wise differentiation matrices apply, to each segment, exactly that segment's own operator (for its own order and points) to that segment's own nodes, adjacent segments sharing one node, and zero elsewhere. The composite quadrature row lists, segment after segment, that segment's own weights of all its nodes, so a shared node appears once for each of its segments.",
  ["inputs", "configurations"], "every list of polynomial orders (equal or not) and evaluation points, including empty segments",
  "Tests use one segment, or equal orders.",
  [("composite matrices", f"{M}:Collocation.get_composite_*")],
  observe=["Collocation.get_composite_* results"])

p("C13", "Every scheme provides degree plus one nodes spanning the interval",
  "For every supported scheme name and every degree of at least one, the collocation nodes are degree plus one in number, and the first and last node are the ends of the normalised interval; this holds for any interval limits. Scheme names select their own family of interior nodes (LG: the Gauss-Legendre points, LGR and LGL: the Gauss-Jacobi points for weights (1, 0) and (1, 1), CGL: the Chebyshev-Lobatto points), and the interval limits reported for post processing are those used to place the nodes.",
  ["inputs", "configurations"], "every scheme name, degree and interval",
  "Tests build degree one, and one scheme per fixture.",
  [("node functions", f"{M}:CollocationRoots.*"), ("dispatch", f"{M}:CollocationRoots.get_collocation_points")],
  observe=["Collocation.roots"])

p("C14", "Symbolic and numerical back ends compute the same operators",
  "For every set of nodes, evaluation points, interval limits and derivative order (one or two), the basis polynomials, differentiation, interpolation and quadrature operators are the Lagrange basis of the nodes, its derivative of the requested order, its values and its integral between the requested limits, both with the symbolic and with the numerical back end. Entry (row, column) always belongs to evaluation point row and basis polynomial column.",
  ["inputs", "configurations"], "every node set, evaluation point, limits, order, both back ends",
  "One test compares the two back ends on one grid with default limits and first derivatives.",
  [("basis", f"{M}:Collocation.get_lagrange_polynomials"), ("operators", f"{M}:Collocation.get_diff_matrix, get_quadrature_weights, get_interpolation_matrix")],
  observe=["Collocation operators"])

p("C15", "Retrieved solutions are in the user's units",
  "The states, controls, parameters and times returned by post processing equal the corresponding entries of the solver's solution for the requested phases, in the requested order, divided by the user's scale factors component by component (undivided, except for time, only if scaled output was requested). Node, state, control and parameter positions are preserved for every problem size.",
  ["inputs", "configurations"], ALLDIMS + ", every list of requested phases",
  "Tests use scale factors 1 and no parameters.",
  [("trajectories", f"{M}:mpopt.init_trajectories, post_process.get_trajectories, post_process.get_original_data"), ("options", f"{M}:mpopt.process_results, mpopt_adaptive.process_results")],
  observe=["post.get_data(), post.get_trajectories()"])

p("C16", "Interpolated solutions use the solve's own grid",
  "Interpolated states, controls and times returned by post processing are the solve's own polynomials (same scheme and orders) evaluated at the same points for all three quantities, phase after phase in the requested order; the time of a point is its segment's start time plus its normalised position times the segment's duration.",
  ["inputs", "configurations"], ALLDIMS + ", every list of requested phases and evaluation points",
  "Tests compare lengths only.",
  [("interpolation", f"{M}:post_process.get_interpolated_data, post_process.get_interpolated_time_grid, mpopt.interpolate_single_phase, mpopt.get_interpolated_time_grid")],
  observe=["post.get_data(interpolate=True)"])

p("C17", "Dynamics residuals measure the same equation the NLP imposes",
  "For every phase and segment, the reported dynamics residual at each evaluation point is the derivative of the interpolated state minus the segment's time step times the scaled dynamics of that phase evaluated at the interpolated, unscaled state, control and time and parameters of that same point, using that phase's segment widths and duration. Residuals and times are returned per segment, in order.",
  ["inputs", "configurations"], ALLDIMS + ", every evaluation grid, including segments without points",
  "Tests use scale 1 and equal widths, and assert only that values are small.",
  [("dynamics residual", f"{M}:mpopt.get_dynamics_residuals_single_phase"), ("interpolation", f"{M}:mpopt.interpolate_single_phase")],
  observe=["get_dynamics_residuals result"])

p("C18", "State residuals integrate the dynamics from each segment's own start",
  "For every phase and segment, the integrated state at each evaluation point is the solution state at the start of that segment plus the segment's time step times the integral, from the interval start to that point, of the scaled dynamics of that phase at the interpolated unscaled arguments, and the reported residual is the interpolated state minus it.",
  ["inputs", "configurations"], ALLDIMS + ", every evaluation grid",
  "Tests use one segment and scale 1.",
  [("integrated states", f"{M}:mpopt.compute_states_from_solution_dynamics")],
  observe=["compute_states_from_solution_dynamics, get_states_residuals results"])

p("C19", "Residual grids follow each phase's own settings",
  "When residuals or second derivatives are requested without explicit points, every phase is evaluated on the grid type given in the call, or else on that phase's own grid type setting (for second derivatives, the collocation nodes), irrespective of which phases were processed before; explicit points given per phase are used for that phase only. The available grid types return one list of points per segment, and the equally spaced grid excludes both ends of the phase.",
  ["inputs", "configurations", "histories"], "every assignment of grid types to phases, every number of phases and segments",
  "Tests set one grid type for all phases of single phase problems.",
  [("grids", f"{M}:mpopt.get_residual_grid_taus"), ("drivers", f"{M}:mpopt.get_dynamics_residuals, get_states_residuals, get_state_second_derivative*")],
  observe=["evaluation points used per phase"])

p("C20", "The user's problem definition is never modified or shared",
  "Creating an optimizer, building, solving, refining and post processing never modify the problem object the user passed in, and later changes the user makes to that object do not affect an optimizer created earlier. Two optimizers never share mutable problem or grid data, not even through default arguments.",
  ["inputs", "histories"], "every sequence of public calls",
  "Tests never reuse a problem object after solving or look at it again.",
  [("private copy", f"{M}:mpopt.__init__")],
  observe=["the caller's OCP object"])

p("C21", "Caller supplied options and solutions are never modified",
  "No public call modifies a dictionary, list, array or solution object passed in by the caller, nor any default argument value, so the outcome of a call depends only on its own arguments and the object's state, never on options of an earlier call.",
  ["inputs", "histories"], "every sequence of public calls and every options dictionary",
  "Tests pass fresh literals and never inspect them afterwards.",
  [("solve methods", f"{M}:mpopt.solve, mpopt_h_adaptive.solve, mpopt_adaptive.solve, mpopt_ph_adaptive.solve_ph, solve"), ("solver options", f"{M}:*.create_solver")],
  observe=["arguments after the call"])

p("C22", "Post processing and residual queries are read-only",
  "Retrieving trajectories, interpolating, plotting, estimating residuals or second derivatives never changes the optimizer's problem, grid, variables, bounds, solver, segment widths or the solution it is given: solving or querying again afterwards gives what it would have given without the query.",
  ["histories", "inputs"], "every interleaving of queries and solves",
  "Tests query once after each solve.",
  [("query methods", f"{M}:mpopt.process_results, get_*residual*, interpolate_single_phase, init_trajectories; post_process.*")],
  observe=["optimizer attributes before and after a query"])

p("C23", "Stored segment widths are those of the returned solution",
  "Whenever a solve returns, the segment widths the optimizer keeps for post processing are the ones with which the returned solution was computed (passed to the solver in that call, or, when widths are optimised, extracted from that solution), whatever reason ended the iterations.",
  ["histories", "inputs"], "every iteration history and stopping reason",
  "Tests only reach one or two of the stopping reasons and never compare the widths.",
  [("iteration", f"{M}:mpopt_h_adaptive.solve"), ("fixed grid", f"{M}:mpopt.solve"), ("optimised widths", f"{M}:mpopt_adaptive.solve")],
  state=[("_nlp_sw_params", "segment widths used by post processing", f"{M}:mpopt.solve")],
  observe=["time grid of post processed data after an h-adaptive solve"])

p("C24", "Refined segment widths stay a partition of each phase",
  "Each refinement step returns, for every phase, one positive fraction per segment, computed from that phase's own residuals, times and previous widths, concatenated in phase order; blending and normalising keep the sum of a phase's fractions at one, the limits on widths are applied before the final normalisation (widths differ by no more than the ratio of the limits), merging keeps the boundaries between segments within and above the tolerance, the control slope method cuts segments at steep interior nodes, and a phase already within its own tolerance keeps its widths unchanged. The reported error is the largest residual magnitude of all phases.",
  ["histories", "inputs"], "every solution, number of phases and segments",
  "Tests refine single-phase problems and never look at the widths.",
  [("refinement", f"{M}:mpopt_h_adaptive.compute_seg_width_based_on_residuals, compute_seg_width_based_on_input_slope, refine_segment_widths_based_on_residuals, merge_split_segments_based_on_residuals, compute_segment_widths_at_times")],
  observe=["segment widths after each refinement"])

p("C25", "Cached transcriptions are never stale",
  "An optimizer builds its solver on first use and again whenever rebuilding is requested, and never otherwise; every build recomputes collocation data and decision variables from the current scheme, orders and problem. Resetting an optimizer discards all cached data, and no cached item is marked valid before it has been computed.",
  ["histories", "configurations"], "every sequence of create, solve, reset and rebuild calls",
  "Tests solve each optimizer once.",
  [("flags", f"{M}:mpopt.reset_mpopt, create_variables, compute_numerical_approximation, create_solver"), ("use", f"{M}:mpopt.solve, create_nlp and overrides")],
  state=[("_collocation_approximation_computed, _variables_created, _nlpsolver_initialized", "cache validity", f"{M}:mpopt.reset_mpopt")],
  observe=["nlp solver used by solve after a reset or rebuild"])

p("C26", "Solver inputs honour the caller's choices",
  "The NLP solver is created with the plugin the caller named and with every option the caller gave, which takes precedence over built-in defaults; it is called with all bounds of the current NLP, the caller's initial solution and multipliers mapped to the matching starting values, or the default starting point if none is given, and the segment widths the caller supplied, or else the optimizer's own. The result returned is the solver's.",
  ["inputs", "configurations"], "every solver name, options dictionary and initial solution",
  "Tests pass at most one option and no multipliers.",
  [("solver creation", f"{M}:mpopt.create_solver, mpopt_adaptive.create_solver"), ("solve", f"{M}:*.solve"), ("warm start", f"{M}:mpopt.get_solver_warm_start_input_parameters")],
  observe=["arguments of the solver plugin"])

p("C27", "A freshly created problem imposes nothing the user did not ask for",
  "For every number of states, controls, parameters and phases, a new problem has zero dynamics and costs, no path or terminal constraints, unit scaling, unbounded states, controls, parameters and end times (times not negative), the first phase starting at time zero, consecutive phases linked without jumps and every per-phase or per-component setting sized accordingly, with no data shared between settings, phases or problem objects.",
  ["inputs"], "every number of states, controls, parameters and phases",
  "Tests instantiate seven small sizes and check shapes only.",
  [("defaults", f"{M}:OCP.__init__")],
  observe=["attributes of a new OCP"])

p("C28", "Validation rejects every inconsistent size or bound",
  "Validating a problem checks, in every phase, the number of functions, the number of state derivatives the dynamics return, the size of every guess, scale and bound array of states, controls, parameters, times and phase jumps, and that each lower bound of a state, control, parameter, start time, end time and phase jump does not exceed its upper bound, and raises an error if any of these does not hold; a consistent problem is never rejected.",
  ["inputs"], "every problem definition",
  "Tests validate consistent problems only.",
  [("validation", f"{M}:OCP.validate")],
  observe=["exception raised by OCP.validate"])

p("C29", "Functions are called with parameters exactly when the problem has them",
  "User functions receive the parameter vector as an additional last argument if and only if the problem declares parameters, consistently wherever they are called (building the NLP, checking for the presence of constraints, validating, estimating residuals), and the presence check of a constraint asks the same phase's function that is later imposed.",
  ["inputs", "configurations"], "every problem with and without parameters",
  "No multi-phase test has parameters.",
  [("wrappers", f"{M}:OCP.get_*, OCP.has_*")],
  observe=["arity of the user's callbacks"])

p("C30", "Every documented argument takes effect",
  "Each argument of a public method influences its result, its effects or the calls it makes, under no setting being silently replaced by a default when the caller supplied it; in particular requested residuals are always computed and kept, and requested grid types, phases, dimensions, orders and limits are used.",
  ["inputs", "configurations"], "every public method and combination of arguments",
  "Tests leave most optional arguments at their default.",
  [("public API", f"{M}: all public methods")],
  observe=["results as a function of arguments"])

p("C31", "No public call can fail on a name that was never assigned",
  "On every path through every function, each local name is assigned before it is read, every attribute read on the library's own objects is one that some method or the class defines, every function is called with arguments its signature accepts, results are unpacked into as many names as there are values, and an option the caller may leave out is only read where its presence was tested; whatever options are passed or left out.",
  ["inputs", "configurations"], "every path through every function",
  "Tests do not execute the p-h adaptive optimizer nor most option combinations.",
  [("all functions", f"{M}")],
  observe=["NameError, UnboundLocalError, AttributeError, TypeError"])

p("C32", "Plots show the requested data and change none of it",
  "Every plotting method draws, for the requested phases and dimensions, exactly the data returned by data retrieval (states against time in the state axes, controls against time in the control axes, each with the label of its own dimension), for any number of states and controls; axes and figures passed in by the caller are used and returned.",
  ["inputs", "configurations"], "every list of phases and dimensions, any number of states and controls",
  "Tests never plot.",
  [("plots", f"{M}:post_process.plot_*")],
  observe=["calls to the plotting backend"])

p("C33", "The solution converges to the continuous optimum",
  "As the number of segments or the polynomial order grows, the returned states, controls and cost approach those of the continuous problem at the rate of the collocation scheme.",
  ["inputs"], "every smooth problem", "Convergence is a limit statement.",
  [("collocation", f"{M}:mpopt")], observe=["solutions on refined grids"])

p("C34", "Adaptive refinement ends with residuals within tolerance",
  "If the adaptive optimizers stop because of accuracy, the maximum residual of the returned solution at the evaluation points is below the requested tolerance, and refinement with an admissible problem does not worsen the maximum residual.",
  ["histories", "inputs"], "every problem and iteration history", "Depends on numerical values produced by the NLP solver.",
  [("iteration", f"{M}:mpopt_h_adaptive.solve")], observe=["iter_info"])

p("C35", "Quadrature and differentiation are exact up to the scheme's degree",
  "For every scheme and order, differentiation is exact for polynomials up to the order, and the quadrature of each segment integrates polynomials exactly up to the degree the scheme guarantees, to floating point accuracy.",
  ["inputs"], "every scheme, order and polynomial", "Numerical statement over unbounded degrees.",
  [("weights", f"{M}:Collocation.get_quadrature_weights, get_diff_matrix")], observe=["operator values"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
