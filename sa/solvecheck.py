"""C23, C25, C26: solver creation, solver inputs, cached transcriptions and stored widths."""
import random, traceback
from . import terms as tm
from .terms import ev, lift, sym, ONE, ZERO, TRUE, FALSE, var0, fresh, Undecided
from .values import *
from . import arrays as ar
from .harness import Cfg, setup, top_frame, make_ocp, poly_list
from .nlpcheck import numvec, close, reachable, Sources, nlp_valuation, check_build
from .nlpspec import Build, numbers
from .report import Report, SRC, pmap

CLASSES = ["mpopt", "mpopt_h_adaptive", "mpopt_adaptive", "mpopt_ph_adaptive"]
HISTORY = ["start", "x", "x0", "full", "lam_only", "x0lam"]


class Scene:
    """an optimizer whose solver calls return symbolic solutions, one per call"""

    def __init__(self, cls, path, hook_widths=False, build=True):
        self.cls, self.key, self.path = cls, (cls, "sym", "sym", "sym"), path
        cfg = Cfg("sym", "sym")
        self.it, self.cfg = setup(path=path, cfg=cfg)
        it = self.it
        it.havoc = True
        self.always = False
        cfg.solution = self.solution
        if hook_widths:
            for c in CLASSES:
                cfg.func_hooks[(c, "get_segment_width_parameters")] = self.widths
            for n in ("get_states_residuals", "get_dynamics_residuals", "get_state_second_derivative"):
                cfg.func_hooks[("mpopt", n)] = self.query
        top_frame(it)
        self.ocp = make_ocp(it, cfg)
        self.asked = []
        self.mp = it.instantiate(cls, [self.ocp, cfg.S, poly_list(it, cfg), "SCH"], {}, None) if build else None

    def query(self, it, f, args, kw, node):
        return (tuple(TopV("residual query") for _ in range(4)),)

    # call k of the solver returns a solution whose entries are solx(k, i), ...
    def solution(self, it, solver, kws, node):
        k = len(self.cfg.solver_calls) - 1
        n, m = sym("nz"), sym("ng")
        try:
            n = ar.as_ca(resolve(it.dict_get(solver.args[2], "x")[1])).shape[0]
        except Exception:
            pass

        def vec(name, n):
            return Arr("ca", (n, ONE), lambda i, j: sym("sol_" + name, lift(k), i))
        return it.new(DictVal([((), TRUE, a, vec(a, b)) for a, b in (
            ("x", n), ("lam_x", n), ("g", m), ("lam_g", m), ("f", ONE), ("lam_p", n))]))

    def widths(self, it, f, args, kw, node):
        vs = it.bind_args(f, args, kw, node)
        if vs is None:
            return (TopV("arity"),)
        k = len(self.asked)
        sol = [vs[a.arg] for a in f.node.args.args][1]
        self.asked.append((it.freeze(sol), dict((a, it.freeze(b)) for a, b in vs.items() if a != "self")))
        none = it.is_none(sol) if hasattr(it, "is_none") else None
        v = fresh("q")
        w = it.new(ListVal([Comp(v, self.cfg.P * self.cfg.S, [Item(sym("neww", lift(k), var0(v)))])]))
        if f.cls == "mpopt":
            return (w,)
        err = sym("err", lift(k))
        if not self.always:
            err = gate(tm.t_eq(sym("haserr", lift(k)), ONE), err, None)
        if resolve(sol) is None:
            err = None
        return ((w, err),)

    def attr(self, name):
        return self.it.freeze(self.it.get(self.mp).attrs.get(name))

    def call(self, name, args=(), kw=None):
        return self.it.freeze(self.it.call(self.it.getattr(self.mp, name, None), list(args), dict(kw or {}), None))

    def given(self, keys):
        """an initial solution with these entries"""
        z, m = sym("nz"), sym("ng")
        return self.it.new(DictVal([((), TRUE, k, Arr("ca", (m if k in ("g", "lam_g", "lam_g0") else z, ONE),
                                                      lambda i, j, k=k: sym("given_" + k, i))) for k in keys]))

    def option(self, d):
        return self.it.new(DictVal([((), TRUE, k, v) for k, v in d.items()]))


def val(seed, k, b, over=None):
    e = nlp_valuation(seed, k, b)
    e.fixed.update(over or {})
    return e


def entries(v):
    """dictionary value -> {key: value} at the valuation"""
    v = resolve(v)
    if not isinstance(v, DictVal):
        raise Undecided("not a dictionary")
    if v.ext:
        raise Undecided("unknown dictionary")
    out = {}
    for w in v.writes:
        if w[0] or not isinstance(w[2], str):
            raise Undecided("dictionary key")
        if bool(ev(w[1])):
            x = resolve(w[3])
            if x == "<absent>":
                out.pop(w[2], None)
            else:
                out[w[2]] = x
    return out


def leaf(v):
    """the alternative chosen under the valuation"""
    v = resolve(v)
    while isinstance(v, Gated):
        v = resolve(v.a if bool(ev(v.c)) else v.b)
    return v


def at(b, name):
    return "%s (%s)" % (b.src.reading(b.cls, name), b.cls)


def events(b, kind, since=0):
    return [e for e in b.it.events[since:] if e.kind == kind]


# ------------------------------------------------------------------- creation
def creation(b, entry, solver, variant):
    it = b.it
    opts = {"none": {}, "own": {"ipopt.max_iter": sym("o_iter"), "ipopt.tol": sym("o_tol"),
                                "ipopt.print_level": sym("o_pl"), "print_time": sym("o_pt"),
                                "ipopt.sb": "no", "ipopt.acceptable_tol": sym("o_at")},
            "other": {"custom.option": sym("o_c"), "expand": sym("o_e")}}[variant]
    o = b.option(opts)
    if entry == "solve" and b.cls == "mpopt_h_adaptive":
        mi = {"max_iter": ONE}
    else:
        mi = {}
    if entry == "create_solver":
        b.call("create_solver", [], dict({"options": o}, **({"solver": solver} if solver else {})))
    else:
        b.call("solve", [], dict({"nlp_solver_options": o}, **mi, **({"solver": solver} if solver else {})))
    made = events(b, "nlpsol")

    def compare(e, add, rep):
        n = [x for x in made if reachable(x)]
        if len(n) != 1:
            add("C25", "solver built %d times" % len(n), "nlpsol", "one call builds it %d times" % len(n))
            if not n:
                return
        a = n[-1].data["args"]
        if len(a) < 3:
            raise Undecided("arguments of nlpsol")
        rep.ob("solver creations")
        plugin = leaf(a[1])
        if not isinstance(plugin, str):
            raise Undecided("plugin name")
        if plugin != (solver or "ipopt"):
            add("C26", "solver plugin", "nlpsol", "%r requested, %r created" % (solver or "ipopt (default)", plugin))
        have = entries(a[3]) if len(a) > 3 else {}
        for k, v in opts.items():
            rep.ob("solver options")
            if k not in have:
                add("C26", "option lost", "nlpsol", "option %r of the caller does not reach the solver" % k)
                continue
            w = leaf(have[k])
            if isinstance(v, str) or isinstance(w, str):
                ok = v == w
            else:
                ok = close(ev(ar.to_scalar(v)), ev(ar.to_scalar(w)))
            if not ok:
                add("C26", "option overridden", "nlpsol", "option %r of the caller is replaced" % k)
        if (solver or "ipopt") != "ipopt":
            bad = [k for k in have if k not in opts and k.startswith("ipopt.")]
            if bad:
                add("C26", "option of another plugin", "nlpsol", "%r passed to %r, which does not know it" % (
                    bad[0], solver))
        prob = entries(a[2])
        for k in ("x", "f", "g"):
            if k not in prob:
                add("C26", "problem entry missing", "nlpsol", "the solver is created without %r" % k)
    return compare


# --------------------------------------------------------------------- inputs
KEYSETS = {"none": None, "x": ["x"], "x0": ["x0"], "full": ["f", "g", "lam_g", "lam_p", "lam_x", "x"],
           "lam": ["lam_x", "lam_g"], "x0lam0": ["x0", "lam_x0", "lam_g0"], "empty": []}
TARGET = {"x": "x0", "x0": "x0", "lam_x": "lam_x0", "lam_x0": "lam_x0", "lam_g": "lam_g0", "lam_g0": "lam_g0"}


def inputs(b, keyset, widths):
    it = b.it
    keys = KEYSETS[keyset]
    ref = b.call("initialize_solution")
    kw = {}
    if keys is not None:
        kw["initial_solution"] = b.given(keys)
    if widths == "given":
        v = fresh("q")
        kw["mpopt_options"] = b.option({"nlp_sw_params": it.new(ListVal(
            [Comp(v, b.cfg.P * b.cfg.S, [Item(sym("user_w", var0(v)))])]))})
    elif widths == "rebuild":
        kw["reinitialize_nlp"] = TRUE
    if b.cls == "mpopt_h_adaptive":
        kw["max_iter"] = ONE
    ret = b.call("solve", [], kw)
    calls = list(b.cfg.solver_calls)
    stored = b.attr("_nlp_sw_params")
    H = it.freeze(it.getattr(b.mp, "seg_widths", None))

    def compare(e, add, rep):
        act = [c for c in calls if all(bool(ev(c_)) == bool(v) for c_, v in c[4])]
        if not act and keys and b.cls == "mpopt_h_adaptive":
            return
        if len(act) != 1:
            add("C26", "solver not called once", "solve", "%d solver calls in one solve" % len(act))
            return
        kws = {k: leaf(v) for k, v in act[0][2].items()}
        kws = {k: v for k, v in kws.items() if v != "<absent>"}
        if any(k.startswith("**") for k in kws):
            raise Undecided("solver arguments")
        rep.ob("solver calls")
        bounds = entries(b.attr("nlp_bounds"))
        for k in ("lbx", "ubx", "lbg", "ubg"):
            rep.ob("solver arguments")
            if k not in kws:
                add("C26", "bounds not passed", "nlp_solver", "the solver is called without %r" % k)
                continue
            same(kws[k], bounds[k], "C26", "bounds of another problem", "nlp_solver",
                 "%r is not the bound vector of the current NLP" % k, add)
        want = {}
        for k in keys or []:
            if k in TARGET:
                want[TARGET[k]] = Arr("ca", (sym("ng") if "lam_g" in k else sym("nz"), ONE),
                                      lambda i, j, k=k: sym("given_" + k, i))
        for t in ("x0", "lam_x0", "lam_g0"):
            rep.ob("solver arguments")
            if t in want:
                if t not in kws:
                    add("C26", "starting value not passed", "get_solver_warm_start_input_parameters",
                        "%s of the initial solution is not passed" % t)
                else:
                    same(kws[t], want[t], "C26", "starting value", "get_solver_warm_start_input_parameters",
                         "%s is not the matching entry of the initial solution" % t, add)
            elif t == "x0":
                if t not in kws:
                    add("C26", "default starting point missing", "get_solver_warm_start_input_parameters",
                        "no starting point is passed")
                else:
                    same(kws[t], ref, "C26", "default starting point", "get_solver_warm_start_input_parameters",
                         "not the default starting point", add)
        x = leaf(ret)
        if not isinstance(x, DictVal):
            raise Undecided("returned solution")
        if "x" not in entries(x) or ident(entries(x)["x"], e) != calls.index(act[0]):
            add("C26", "result", "solve", "what solve returns is not the solver's result")
        free = b.cls == "mpopt_adaptive"
        n = int(ev(b.cfg.P * b.cfg.S))
        if free:
            if "p" in kws:
                add("C26", "widths passed", "nlp_solver", "the NLP has no parameter but one is passed")
            return
        if "p" not in kws:
            add("C26", "widths not passed", "nlp_solver", "the solver is called without segment widths")
            return
        p = numbers(kws["p"])
        if widths == "given" and b.cls in ("mpopt", "mpopt_ph_adaptive"):
            w = [ev(sym("user_w", lift(i))) for i in range(n)]
            what = "the caller's widths"
        elif b.cls == "mpopt_h_adaptive":
            w = [ev(sym("neww", ZERO, lift(i))) for i in range(n)]
            what = "the widths derived from the initial solution"
        else:
            w = [1 / ev(b.cfg.S)] * n
            what = "equal widths"
        rep.ob("segment widths", n)
        if len(p) != len(w) or any(not close(x, y) for x, y in zip(p, w) if x == x):
            add("C26", "segment widths passed", "_nlp_sw_params", "%s, required %s: %s" % (short(p), what, short(w)))
    return compare


def short(l):
    return "[%s]" % ", ".join("%.4g" % x for x in l[:6])


def ident(x, e):
    """number of the solver call the solution comes from"""
    x = leaf(x)
    if not isinstance(x, Arr):
        raise Undecided("solution")
    old = e.fixed.get("sol_x")
    e.fixed["sol_x"] = lambda k, i: int(k) + 1000
    og = e.fixed.get("given_x")
    e.fixed["given_x"] = lambda i: 999
    e.cache.clear()
    try:
        return int(round(ev(x.at(ZERO, ZERO) if x.ndim == 2 else x.at(ZERO)))) - 1000
    finally:
        for n, o in (("sol_x", old), ("given_x", og)):
            if o is None:
                del e.fixed[n]
            else:
                e.fixed[n] = o
        e.cache.clear()


def same(v, w, prop, rule, fn, detail, add):
    a, why = numvec(v)
    b, why2 = numvec(w)
    if why or why2:
        raise Undecided((why + why2)[0])
    if len(a) != len(b):
        add(prop, rule, fn, detail + " (%d entries, required %d)" % (len(a), len(b)))
        return
    for i, (x, y) in enumerate(zip(a, b)):
        if x == x and y == y and not close(x, y):
            add(prop, rule, fn, detail + " (entry %d: %.5g, required %.5g)" % (i, x, y))
            return


# --------------------------------------------------------------------- widths
def stored(b, start, niter):
    """widths kept after a solve are those of the solution it returns"""
    it = b.it
    v = fresh("q")
    o = it.get(b.mp)
    before = it.new(ListVal([Comp(v, b.cfg.P * b.cfg.S, [Item(sym("old_w", var0(v)))])]))
    it.put(b.mp, o.set("_nlp_sw_params", before))
    kw = {}
    b.always = (niter or 0) > 3    # a refinement without error estimate stops at once
    if start == "given":
        kw["initial_solution"] = b.given(["x", "lam_x", "lam_g"])
    if start == "widths":
        v = fresh("q")
        kw["mpopt_options"] = b.option({"nlp_sw_params": it.new(ListVal(
            [Comp(v, b.cfg.P * b.cfg.S, [Item(sym("user_w", var0(v)))])]))})
    if niter is not None:
        kw["max_iter"] = lift(niter)
    ret = b.call("solve", [], kw)
    again = start == "twice"
    first = b.attr("_nlp_sw_params")
    if again:
        kw["initial_solution"] = it.new(DictVal([((), TRUE, "x", Arr("ca", (sym("nz"), ONE),
                                                                     lambda i, j: sym("given_x", i)))]))
        ret = b.call("solve", [], kw)
    calls = list(b.cfg.solver_calls)
    kept = b.attr("_nlp_sw_params")
    H = it.freeze(it.getattr(b.mp, "seg_widths", None))
    Z = it.freeze(it.getattr(b.mp, "Z", None))

    def compare(e, add, rep):
        n = int(ev(b.cfg.P * b.cfg.S))
        r = leaf(ret)
        if r is None:
            raise Undecided("returned solution")
        if "x" not in entries(r):
            for p in ("C23", "C26"):
                add(p, "result", "_nlp_sw_params", "the value returned has no solution vector")
            return
        k = ident(entries(r)["x"], e)
        got = flatnumbers(kept)
        rep.ob("stored widths compared", n)
        if b.cls == "mpopt_adaptive":
            from .lib import Subst
            z = ar.as_ca(resolve(Z))
            s = Subst([z], [Arr("ca", z.shape, lambda i, j: sym("sol_x", lift(k), i))])
            e.subst.append(s.table())
            try:
                want = flatnumbers(ar.flatten(ar.as_ca(resolve(H)), "F", column=True))
            finally:
                e.subst.pop()
            what = "those in the solution"
        elif k < 0:
            want = flatnumbers(first) if again else [ev(sym("old_w", lift(i))) for i in range(n)]
            what = "unchanged, as no solve took place"
        else:
            if "p" not in calls[k][2]:
                raise Undecided("widths of the solver call")
            want = flatnumbers(calls[k][2]["p"])
            what = "those of solver call %d, whose solution is returned" % (k + 1)
        if any(x != x for x in got + want):
            raise Undecided("stored widths")
        if len(got) != len(want) or any(not close(x, y) for x, y in zip(got, want)):
            add("C23", "stored widths", "_nlp_sw_params", "%s kept, required %s (%s)" % (short(got), short(want), what))
    return compare


def flatnumbers(v):
    v = leaf(v)
    a, why = numvec(v)
    if why:
        raise Undecided(why[0])
    return a


# ---------------------------------------------------------------------- caches
FLAGS = {"nlpsol": "_nlpsolver_initialized", "colloc": "_collocation_approximation_computed",
         "vars": "_variables_created"}


def history(b, _):
    """solve, solve again, rebuild, reset: the solver is built exactly when needed"""
    it = b.it
    marks, used = [], []

    def step(name, f):
        n, c = len(it.events), len(b.cfg.solver_calls)
        f()
        marks.append((name, events(b, "nlpsol", n), b.cfg.solver_calls[c:]))
    kw = {"max_iter": ONE} if b.cls == "mpopt_h_adaptive" else {}
    early = []

    def watch(kind, orig):
        def h(*a, **k):
            o = it.get(b.mp).attrs if isinstance(b.mp, Ref) else {}
            fl = o.get(FLAGS[kind])
            if not done:
                early.append((kind, it.freeze(fl), list(tm.FACTS)))
            return orig(*a, **k)
        return h
    done = []
    b.cfg.func_hooks[("Collocation", "__init__")] = watch("colloc", b.cfg.func_hooks[("Collocation", "__init__")])
    b.cfg.on_nlpsol = watch("nlpsol", lambda *a: None)
    b.cfg.symname = watch("vars", b.cfg.symname)
    step("first solve", lambda: b.call("solve", [], kw))
    done.append(1)
    step("second solve", lambda: b.call("solve", [], kw))
    step("solve with rebuild", lambda: b.call("solve", [], dict(kw, reinitialize_nlp=TRUE)))
    step("solve after rebuild", lambda: b.call("solve", [], kw))
    step("solve after reset", lambda: (b.call("reset_mpopt"), b.call("solve", [], kw)))
    need = {"first solve": 1, "second solve": 0, "solve with rebuild": 1, "solve after rebuild": 0,
            "solve after reset": 1}

    def compare(e, add, rep):
        cur = None
        for name, made, calls in marks:
            n = [x for x in made if reachable(x)]
            rep.ob("solver builds compared")
            if len(n) != need[name]:
                add("C25", "builds of the solver", "_nlpsolver_initialized", "%s builds it %d times, required %d" % (
                    name, len(n), need[name]))
                return
            if n:
                cur = n[-1].data["args"]
            for c in calls:
                if not all(bool(ev(c_)) == bool(v) for c_, v in c[4]):
                    continue
                s = leaf(c[0])
                rep.ob("solver used compared")
                if hasattr(s, "args") and s.args is not cur and tuple(s.args) != tuple(cur):
                    add("C25", "stale solver", "nlp_solver", "%s uses a solver built earlier" % name)
        for kind, fl, facts in early:
            if all(bool(ev(c_)) == bool(v) for c_, v in facts) and fl is not None:
                rep.ob("cache flags examined")
                if isinstance(leaf(fl), T) and bool(ev(leaf(fl))):
                    add("C25", "marked valid too early", FLAGS[kind], "%s is set before the item exists" % FLAGS[kind])
    return compare


class Rebuilt(Build):
    """an optimizer used with other settings first, then reconfigured and rebuilt"""

    def __init__(self, cls, mode, path):
        self.cls, self.key, self.path = cls, (cls, "sym", "sym", "sym"), path
        self.it, self.cfg = setup(path=path)
        it = self.it
        top_frame(it)
        self.ocp = make_ocp(it, self.cfg)
        self.poly = poly_list(it, self.cfg)
        v = fresh("s")
        tm.MIN.update({"S0": 1, "p0": 1})
        S0 = sym("S0")
        old = it.new(ListVal([Comp(v, S0, [Item(sym("p0", var0(v)))])]))
        if mode == "reset":
            self.mp = it.instantiate(cls, [self.ocp, S0, old, "OLD"], {}, None)
        else:
            self.mp = it.instantiate(cls, [self.ocp, self.cfg.S, self.poly, "OLD"], {}, None)
        if mode == "rebuild":
            o = it.get(self.mp)
            new = o.attrs["_ocp"]
            other = it.get(new)
            it.put(self.mp, o.set("_ocp", it.new(other.set("scale_x", Arr("np", (sym("nx"),), lambda i: sym("old_scale", i))))))
        call = lambda n, *a, **k: it.call(it.getattr(self.mp, n, None), list(a), k, None)
        call("create_solver")
        o = it.get(self.mp)
        if mode == "reset":
            o = o.set("n_segments", self.cfg.S).set("poly_orders", self.poly)
        if mode == "rebuild":
            o = o.set("_ocp", new)
        it.put(self.mp, o.set("colloc_scheme", "SCH"))
        if mode == "reset":
            call("reset_mpopt")
        if cls == "mpopt_adaptive":
            for n in ("lbh", "ubh", "tol_residual"):
                o = it.get(self.mp)
                if n in o.attrs:
                    v = fresh("p")
                    it.put(self.mp, o.set(n, it.new(ListVal([Comp(v, self.cfg.P, [Item(sym("user_" + n, var0(v)))])]))))
            o = it.get(self.mp)
            if "mid_residuals" in o.attrs:
                it.put(self.mp, o.set("mid_residuals", sym("user_mid_residuals")))
        it.events.clear()
        it.notes.clear()
        it.called.clear()
        if mode == "reset":
            # pieces asked for before the new NLP exists come from the new settings
            self.piece = it.freeze(call("get_nlp_variables", ZERO))
        call("create_solver")
        self.nlpsol = [e for e in it.events if e.kind == "nlpsol"]
        self.attrs = it.get(self.mp).attrs
        self.prob = self.options = None
        if self.nlpsol:
            a = self.nlpsol[-1].data["args"]
            self.prob = a[2] if len(a) > 2 else None
        self.bounds = it.freeze(self.attrs.get("nlp_bounds"))


def rebuilt(cls, mode, seed, nval, path):
    src = Sources(path)
    b = Rebuilt(cls, mode, path)
    rep, out = Report(), Report()
    check_build(b, seed, nval, rep, src, larger=False)
    out.merge(rep)
    out.findings = []
    why = {"reset": "after changing segments, orders and scheme and resetting", "rebuild":
           "after changing scheme or problem and rebuilding"}[mode]
    for f in rep.findings[:1]:
        out.add("C25", "transcription is stale", "reset_mpopt/create_nlp (%s)" % cls, "%s the NLP is not that of the "
                "current settings: %s at %s: %s" % (why, f.rule, f.construct, f.detail))
    if mode == "reset":
        for k in range(nval):
            e = nlp_valuation(seed, k, b)
            with tm.use_env(e):
                try:
                    z = resolve(b.piece)
                    n = int(ev(ar.as_ca(resolve(z[0])).shape[0]))
                    sz = e.sizes
                    want = (sum(sz["p"]) + 1) * (sz["nx"] + sz["nu"]) + sz["na"] + 2
                    if cls == "mpopt_adaptive":
                        want += sz["S"]
                    out.ob("pieces after a reset")
                    if n != want:
                        out.add("C25", "piece after reset", "get_nlp_variables (%s)" % cls,
                                "%d variables, required %d for the new orders" % (n, want))
                except (Undecided, Unsupported, TypeError, AttributeError) as ex:
                    out.undec("%s piece" % cls, ex)
    return out


# ------------------------------------------------------------------------ run
KINDS = {"creation": creation, "inputs": inputs, "stored": stored, "history": history}
RELEVANT = {"C23": ("stored",), "C25": ("history", "rebuilt", "creation"), "C26": ("creation", "inputs", "stored")}


def cases(tier):
    out = []
    for c in CLASSES:
        for s in (None, "ipopt", "sqpmethod"):
            for v in ("none", "own", "other"):
                out.append((c, "creation", ("create_solver", s, v)))
                if v != "none" or s != "ipopt":
                    out.append((c, "creation", ("solve", s, v)))
        for k in KEYSETS:
            for w in ("none", "given", "rebuild"):
                out.append((c, "inputs", (k, w)))
        out.append((c, "history", (None,)))
        out.append((c, "rebuilt", ("reset",)))
        out.append((c, "rebuilt", ("rebuild",)))
        if c == "mpopt_h_adaptive":
            for st in ("none", "given"):
                for n in (1, 2, 3, 7) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8, 10):
                    out.append((c, "stored", (st, n)))
            out.append((c, "stored", ("twice", 1)))
            out.append((c, "stored", ("twice", 2)))
        else:
            for st in ("none", "given", "widths", "twice"):
                out.append((c, "stored", (st, None)))
    return out


def job(j):
    (cls, kind, args), seed, nval, path = j
    import sys
    sys.setrecursionlimit(20000)
    rep = Report()
    tag = "%s %s %s" % (cls, kind, "/".join(str(a) for a in args))
    try:
        if kind == "rebuilt":
            return rebuilt(cls, args[0], seed, min(nval, 4), path)
        b = Scene(cls, path, hook_widths=cls == "mpopt_h_adaptive")
        b.src = Sources(path)
        cmp = KINDS[kind](b, *args)
        rep.analysed |= set(b.it.called)
        for (line, why), n in b.it.notes.items():
            rep.undec("%s line %s" % (tag, line), why)
        for k in range(nval):
            try:
                e = nlp_valuation(seed, k, b)
                rng = random.Random("%s/%s/%s" % (seed, k, tag))
                bits = [rng.random() for _ in range(400)]
                e.fixed["havoc"] = lambda i: int(bits[int(i) % 400] < (0.25 if k % 2 else 0.6))
                e.fixed["haserr"] = lambda i: int(bits[(int(i) * 7 + 3) % 400] < 0.8)
                e.fixed["err"] = lambda i: (1e-4 if kind == "stored" and bits[(int(i) * 11 + 5) % 400] < 0.3 else 1.0) + \
                    1e-5 * bits[(int(i) * 13 + 1) % 400]
                with tm.use_env(e):
                    cmp(e, lambda prop, rule, w, d: rep.add(prop, rule, at(b, w), "%s [%s]" % (d, tag)), rep)
            except Undecided as ex:
                rep.undec(tag, ex)
    except Undecided as ex:
        rep.undec(tag, ex)
    except Exception:
        rep.undec(tag, "analysis stopped: " + traceback.format_exc(limit=-3))
    return rep


def run(seed, tier, path=SRC, prop=None):
    nval = 6 if tier == "quick" else 40
    rep = Report()
    jobs = [(c, seed, nval if c[1] != "stored" else nval * 5, path) for c in cases(tier)
            if prop is None or c[1] in RELEVANT[prop]]
    for r in pmap(job, jobs, rep):
        rep.merge(r)
    rep.rules = ["the solver is created with the caller's plugin and options and called with the current bounds, the "
                 "matching starting values and widths", "built on first use, on request and after a reset, and only "
                 "then; a rebuilt NLP is that of the current settings", "the widths kept after a solve are those of "
                 "the solver call whose solution is returned"]
    return rep
