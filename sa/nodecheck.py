"""C13, C14: collocation nodes and the basis operators built on them."""
import math, random, traceback
from . import terms as tm
from .terms import ev, lift, sym, T, ONE, ZERO, TRUE, var0, fresh, Undecided
from .values import *
from . import arrays as ar
from . import polylib as pl
from .interp import present
from .harness import Cfg, setup, top_frame, Taus, root_arr, np1, valuation
from .nlpcheck import numvec, reachable
from .report import Report, SRC, pmap

SCHEMES = ["LG", "LGR", "LGL", "CGL"]


def affine(xs, a, b):
    return [a + (b - a) / 2 * (x + 1) for x in xs]


def family(s, d):
    """nodes of the scheme on [-1, 1]"""
    if d == 1:
        return [-1.0, 1.0]
    if s == "CGL":
        return [-math.cos(math.pi * j / d) for j in range(d + 1)]
    a, b = {"LG": (0.0, 0.0), "LGR": (1.0, 0.0), "LGL": (1.0, 1.0)}[s]
    return [-1.0] + pl.gauss(d - 1, a, b) + [1.0]


def base(path, method="symbolic", limits=True, nodes=None):
    cfg = Cfg(composite=True)
    cfg.func_hooks.clear()
    cfg.poly_call = pl.call_poly
    cfg.class_override[("Collocation", "D_MATRIX_METHOD")] = method
    if limits:
        cfg.class_override[("CollocationRoots", "_TAU_MIN")] = sym("TMIN")
        cfg.class_override[("CollocationRoots", "_TAU_MAX")] = sym("TMAX")
    if nodes is not None:
        cfg.func_hooks[("CollocationRoots", "get_collocation_points")] = lambda it, f, a, k, n: (nodes,)
    it, cfg = setup(path=path, cfg=cfg)
    tm.MIN["d"] = 1
    top_frame(it)
    return it, cfg


def cls(it, name):
    import ast
    return it.eval(ast.parse(name, mode="eval").body)


def notes(it, rep, what):
    rep.analysed |= set(it.called)
    for (line, why), k in it.notes.items():
        rep.undec("%s line %s" % (what, line), why)


def eq(a, b, tol=2e-6):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


# ---------------------------------------------------------------------- C13
WAYS = ["function", "object", "collocation", "table", "default limits", "after another scheme", "after other limits"]
LIMS = [("CollocationRoots", "_TAU_MIN"), ("CollocationRoots", "_TAU_MAX")]


def nodes_of(seed, path, scheme, way, nval, rep):
    it, cfg = base(path)
    d = sym("d")
    name = "%s nodes (%s)" % (scheme, way)
    tau = None
    if way == "function":
        r = it.call(it.getattr(cls(it, "CollocationRoots"), "get_collocation_points", None), [scheme], {}, None)
        r = it.call(r, [d], {}, None)
        anchor = "CollocationRoots.get_collocation_points"
    elif way == "object":
        o = it.instantiate("CollocationRoots", [scheme], {}, None)
        r = it.call(it.getattr(o, "_taus_fn", None), [d], {}, None)
        anchor = "CollocationRoots.__init__"
    elif way == "default limits":
        m = {"LG": "roots_legendre_gauss", "LGR": "roots_legendre_gauss_radau", "LGL": "roots_legendre_gauss_lobatto",
             "CGL": "roots_chebyshev_gauss_lobatto"}[scheme]
        r = it.call(it.getattr(cls(it, "CollocationRoots"), m, None), [], {}, None)
        r = it.call(r, [d], {}, None)
        anchor = "CollocationRoots." + m
    else:
        hook = ("Collocation", "get_lagrange_polynomials")
        cfg.func_hooks[hook] = lambda it, f, a, k, n: (TopV("polynomials"),)
        if way.startswith("after"):
            # what another object computed earlier must not show in this one
            rec, it.recording = it.recording, False
            first = scheme
            if way == "after other limits":
                now = [cfg.class_override[x] for x in LIMS]
                cfg.class_override.update(zip(LIMS, (sym("TMIN0"), sym("TMAX0"))))
            else:
                first = "LGR" if scheme == "CGL" else "CGL"
            o = it.instantiate("Collocation", [it.new(ListVal([])), first], {}, None)
            it.call(it.getattr(o, "init_polynomials", None), [it.new(ListVal([Item(d)]))], {}, None)
            if way == "after other limits":
                cfg.class_override.update(zip(LIMS, now))
            it.recording = rec
        o = it.instantiate("Collocation", [it.new(ListVal([])), scheme], {}, None)
        tau = [it.freeze(it.getattr(o, n, None)) for n in ("tau0", "tau1")]
        if way == "collocation":
            r = it.call(it.getattr(o, "_taus_fn", None), [d], {}, None)
            anchor = "Collocation.__init__"
        else:
            it.call(it.getattr(o, "init_polynomials", None), [it.new(ListVal([Item(d)]))], {}, None)
            r = present(it.dict_get(it.get(it.getattr(o, "roots", None)), d)[1])
            anchor = "Collocation.init_polynomials"
    r = it.freeze(r)
    notes(it, rep, name)
    degs = [1, 2, 3, 4, 5, 8] + ([6, 7, 9, 12] if nval > 3 else [])
    lims = [(-1.0, 1.0), (0.0, 1.0), (-0.7, 2.3), (0.0, 2.0), (-1.0, 0.0)]
    for dv in degs:
        for a, b in ([(-1.0, 1.0)] if way == "default limits" else lims):
            want = affine(family(scheme, dv), a, b)
            with tm.use_env(valuation(seed, over={"d": dv, "TMIN": a, "TMAX": b, "TMIN0": a - .3, "TMAX0": b + 1.1})):
                rep.ob("node sets compared")
                try:
                    got, why = numvec(r)
                except Undecided as ex:
                    rep.undec(name, ex)
                    continue
                except Exception as ex:
                    rep.undec(name, "%s %s" % (type(ex).__name__, ex))
                    continue
                if why:
                    rep.undec(name, why[0])
                    continue
                if len(got) != dv + 1:
                    rep.add("C13", "degree plus one nodes", "%s (%s)" % (anchor, scheme),
                            "%d nodes for degree %d" % (len(got), dv))
                elif not eq(got[0], a) or not eq(got[-1], b):
                    rep.add("C13", "the nodes span the interval", "%s (%s)" % (anchor, scheme),
                            "degree %d: first %.6g, last %.6g, limits %.6g and %.6g" % (dv, got[0], got[-1], a, b))
                elif any(not eq(x, y) for x, y in zip(got, want)):
                    rep.add("C13", "a scheme name selects its own family", "%s (%s)" % (anchor, scheme),
                            "degree %d on [%g, %g]: nodes %s, required %s" % (
                                dv, a, b, [round(x, 4) for x in got], [round(x, 4) for x in want]))
                if tau is not None:
                    rep.ob("reported limits compared")
                    try:
                        t = [ev(ar.to_scalar(resolve(x))) for x in tau]
                    except Exception as ex:
                        rep.undec(name, ex)
                        continue
                    if not eq(t[0], a) or not eq(t[1], b):
                        rep.add("C13", "reported limits are those of the nodes", "Collocation.__init__",
                                "limits %s reported, nodes placed on [%g, %g]" % (t, a, b))


def reported(seed, path, rep):
    """limits the optimizers hand to post processing"""
    from . import postcheck as pc
    for c in ("mpopt", "mpopt_adaptive"):
        try:
            b = pc.PB(c, path, 1, 0)
            obj = [("optimizer", b.mp), ("post processing", b.post())]
        except Exception as ex:
            rep.undec("limits of %s" % c, "%s %s" % (type(ex).__name__, ex))
            continue
        for what, o in obj:
            for n in ("tau0", "tau1"):
                rep.ob("limits used by the optimizers")
                with tm.use_env(pc.env_for(seed, 0, b)):
                    try:
                        g = ev(ar.to_scalar(resolve(b.it.freeze(b.it.getattr(o, n, None)))))
                        w = ev(sym(n))
                    except Exception as ex:
                        rep.undec("limits of %s" % c, ex)
                        continue
                if not eq(float(g), float(w)):
                    rep.add("C13", "reported limits are those of the nodes", "%s of %s" % (n, c),
                            "the %s uses %g, the nodes %g" % (what, g, w))
    it, cfg = base(path)
    for given in (False, True):
        try:
            d = {"tau0": sym("G0"), "tau1": sym("G1")} if given else {}
            full = {"nx": ONE, "nu": ONE, "na": ZERO, "n_phases": ONE, "poly_orders": it.new(ListVal([Item(ONE)])),
                    "n_segments": ONE, "colloc_scheme": "LGR", "tau_shift": ZERO}
            full.update(d)
            sol = it.new(DictVal([((), TRUE, "x", np1("sx", sym("nz")))]))
            o = it.instantiate("post_process", [sol, it.new(DictVal([((), TRUE, "all", TopV("tr"))])),
                                                it.new(DictVal([((), TRUE, k, v) for k, v in full.items()]))], {}, None)
        except Exception as ex:
            rep.undec("post_process.__init__", "%s %s" % (type(ex).__name__, ex))
            continue
        for n, w in (("tau0", sym("G0") if given else sym("TMIN")), ("tau1", sym("G1") if given else sym("TMAX"))):
            with tm.use_env(valuation(seed, over={"TMIN": -.3, "TMAX": .8, "G0": 0.0, "G1": 1.7})):
                rep.ob("limits used by post processing")
                try:
                    g = ev(ar.to_scalar(resolve(it.freeze(it.getattr(o, n, None)))))
                except Exception as ex:
                    rep.undec("post_process.__init__", ex)
                    continue
                if not eq(float(g), float(ev(w))):
                    rep.add("C13", "reported limits are those of the nodes", "post_process.__init__ " + n,
                            "%s is not the %s" % (n, "given limit" if given else "limit of the nodes"))


# ---------------------------------------------------------------------- C14
def lag(nodes, j, x, order=0):
    """derivative of the j-th Lagrange polynomial"""
    n = len(nodes)

    def rec(skip, k):
        # sum over products with k factors removed
        if k == 0:
            p = 1.0
            for i in range(n):
                if i not in skip:
                    p *= (x - nodes[i]) / (nodes[j] - nodes[i])
            return p
        return sum(rec(skip | {i}, k - 1) / (nodes[j] - nodes[i]) for i in range(n) if i not in skip)
    return rec({j}, order)


def lagint(nodes, j, a, b):
    return pl.integral(lambda x: lag(nodes, j, x), a, b)


def rnodes(rng, n, spread=False):
    while True:
        x = sorted(rng.uniform(-1.5, 1.5) for _ in range(n))
        if n == 1 or min(b - a for a, b in zip(x, x[1:])) > 1.5 / n / n:
            return x


CASES = ["basis", "diff", "diff2", "diff at", "diff2 at", "interp", "quad", "quad lo", "quad hi", "quad both",
         "custom diff", "custom diff at", "custom interp", "custom quad both", "via fn diff", "via fn quad",
         "listed diff", "listed interp", "listed quad",
         "again diff", "again diff2 at", "again interp", "again quad both", "again custom diff at",
         "again custom quad", "again listed diff at",
         "other diff", "other diff2 at", "other interp", "other quad both", "other listed diff"]


class OldTaus(Taus):
    """node placement of another scheme"""

    def call(self, it, args, kw, node):
        deg = ar.to_scalar(resolve(it.freeze(args[0]) if args else it.freeze(list(kw.values())[0])))
        return Arr("np", (deg + 1,), lambda i: sym("root0", deg, i))


def operator(seed, path, method, case, nval, rep):
    it, cfg = base(path, method, nodes=Taus("SCH"))
    name = "%s, %s back end" % (case, method)
    again = case.startswith("again ")
    other = case.startswith("other ")
    case = case.replace("again ", "").replace("other ", "")
    listed = case.startswith("listed")
    orders = [2, 3, 1]
    L = it.new(ListVal([Item(lift(x)) for x in orders] if listed else []))
    d = lift(3) if listed else sym("d")
    if other:
        # the same query on an object with another scheme, earlier
        rec, it.recording = it.recording, False
        cfg.func_hooks[("CollocationRoots", "get_collocation_points")] = lambda it, f, a, k, n: (OldTaus("OLD"),)
        o = it.instantiate("Collocation", [it.new(ListVal([Item(lift(x)) for x in orders] if listed else [])), "OLD"], {}, None)
        p0 = Arr("np", (sym("m"),), lambda i: sym("tau_0", i))
        if "diff" in case:
            kw = {"order": lift(2)} if "diff2" in case else {}
            if "at" in case:
                kw["taus"] = p0
            it.call(it.getattr(o, "get_diff_matrix", None), [d], kw, None)
        elif "quad" in case:
            it.call(it.getattr(o, "get_quadrature_weights", None), [d], {"tau0": sym("T0"), "tau1": sym("T1")}, None)
        else:
            it.call(it.getattr(o, "get_interpolation_matrix", None), [p0, d], {}, None)
        cfg.func_hooks[("CollocationRoots", "get_collocation_points")] = lambda it, f, a, k, n: (Taus("SCH"),)
        it.recording = rec
    o = it.instantiate("Collocation", [L, "SCH"], {}, None)
    key = d
    pts = Arr("np", (sym("m"),), lambda i: sym("tau", i))
    own = Arr("np", (d + 1,), lambda i: sym("own", i))
    custom = case.startswith("custom")
    if custom:
        key = "seg"
        if again:
            it.call(it.getattr(o, "init_polynomials_with_customized_roots", None),
                    [it.new(DictVal([((), TRUE, key, Arr("np", (d + 1,), lambda i: sym("old", i)))]))], {}, None)
        it.call(it.getattr(o, "init_polynomials_with_customized_roots", None),
                [it.new(DictVal([((), TRUE, key, own)]))], {}, None)
    case = case.replace("listed ", "").replace("custom ", "")
    meth = None
    if again:
        # an earlier query with other arguments must not show in this one
        rec, it.recording = it.recording, False
        p0 = Arr("np", (sym("m0"),), lambda i: sym("tau_0", i))
        if "diff" in case:
            it.call(it.getattr(o, "get_diff_matrix", None), [key],
                    {"order": lift(1 if "diff2" in case else 2), "taus": p0}, None)
        elif "quad" in case:
            it.call(it.getattr(o, "get_quadrature_weights", None), [key], {"tau0": sym("T2"), "tau1": sym("T3")}, None)
        else:
            it.call(it.getattr(o, "get_interpolation_matrix", None), [p0, key], {}, None)
        it.recording = rec
    if case == "basis":
        meth = "get_lagrange_polynomials"
        ps = it.freeze(it.call(it.getattr(o, meth, None), [Arr("np", (d + 1,), lambda i: sym("root", d, i))], {}, None))
        r = it.freeze(basis_values(it, ps, method))
    elif "diff" in case:
        meth = "get_diff_matrix"
        kw = {"order": lift(2)} if "diff2" in case else {}
        if "at" in case:
            kw["taus"] = pts
        if "via" in case:
            r = it.call(it.getattr(o, "diff_matrix_fn", None), [o, key], kw, None)
        else:
            r = it.call(it.getattr(o, meth, None), [key], kw, None)
    elif "quad" in case:
        meth = "get_quadrature_weights"
        kw = {}
        if "lo" in case or "both" in case:
            kw["tau0"] = sym("T0")
        if "hi" in case or "both" in case:
            kw["tau1"] = sym("T1")
        if "via" in case:
            r = it.call(it.getattr(o, "quad_matrix_fn", None), [o, key], kw, None)
        else:
            r = it.call(it.getattr(o, meth, None), [key], kw, None)
    else:
        meth = "get_interpolation_matrix"
        r = it.call(it.getattr(o, meth, None), [pts, key], {}, None)
    r = it.freeze(r)
    notes(it, rep, name)
    if isinstance(resolve(r), TopV):
        rep.undec(name, r)
        return
    for k in range(nval):
        rng = random.Random("%s/%s/%s/%s" % (seed, case, custom, k))
        dv = 3 if listed else rng.choice([1, 2, 3, 4] + ([5, 7] if nval > 6 else []))
        m = rng.choice([1, 2, 3, 5])
        nodes = rnodes(rng, dv + 1)
        taus = [rng.uniform(-1.2, 1.2) for _ in range(m)]
        lo, hi = rng.choice([(-1.0, 1.0), (0.0, 1.0), (-0.4, 0.9)])
        T0, T1 = rng.choice([(0.0, 0.6), (-0.9, 0.0), (0.2, 1.1)])
        over = {"root0": lambda g, i: 0.21 * int(i) ** 2 + 0.17 * int(i) - 0.4 + 0.01 * int(g), "m0": 2, "tau_0": lambda i: 0.35 * int(i) - 0.2, "T2": -0.7, "T3": 0.45,
                "old": lambda i: 0.11 * int(i) ** 2 + 0.3 * int(i) - 0.5, "d": dv, "m": m, "tau": lambda i: taus[int(i)], "own": lambda i: nodes[int(i)],
                "root": (lambda g, i: -5.0 - i * i if custom else (nodes[int(i)] if int(g) == dv else 7.0 + i)),
                "TMIN": lo, "TMAX": hi, "T0": T0, "T1": T1}
        if "quad" in case:
            a, b = T0 if "tau0" in kw else lo, T1 if "tau1" in kw else hi
            want = [[lagint(nodes, j, a, b)] for j in range(dv + 1)]
        elif case == "basis":
            want = [[lag(nodes, j, x) for x in taus] for j in range(dv + 1)]
        else:
            ordr = 0 if case == "interp" else 2 if "diff2" in case else 1
            rows = taus if case == "interp" or "at" in case else nodes
            want = [[lag(nodes, j, x, ordr) for j in range(dv + 1)] for x in rows]
        with tm.use_env(valuation(seed, over=over)):
            rep.ob("operators compared (%s)" % method)
            try:
                v = resolve(r)
                while isinstance(v, Gated):
                    v = resolve(v.a if bool(ev(v.c)) else v.b)
                if not isinstance(v, Arr):
                    raise Undecided("result %r" % (v,))
                sh = [int(ev(s)) for s in v.shape]
                if "quad" in case and len(sh) == 1:
                    sh = sh + [1]
                    get = lambda i, j: v.at(lift(i))
                else:
                    get = lambda i, j: v.at(lift(i), lift(j))
                if sh != [len(want), len(want[0])]:
                    rep.add("C14", "size of the operator", "Collocation.%s" % meth, "%s back end: %s, required %s (%s)" % (
                        method, sh, [len(want), len(want[0])], name))
                    return
                for i, row in enumerate(want):
                    for j, w in enumerate(row):
                        g = float(ev(ar.to_scalar(resolve(get(i, j)))))
                        rep.ob("operator entries compared")
                        if not eq(g, w, 1e-5):
                            rep.add("C14", {"basis": "Lagrange basis of the nodes"}.get(
                                case, "quadrature integrates the basis" if "quad" in case else
                                "values of the basis at the points" if case == "interp" else "derivatives of the basis"),
                                "Collocation.%s (%s back end)" % (meth, method),
                                "%s: entry (%d, %d) for degree %d is %.6g, required %.6g" % (name, i, j, dv, g, w))
                            return
            except Undecided as ex:
                rep.undec(name, ex)
            except Exception as ex:
                rep.undec(name, "%s %s" % (type(ex).__name__, str(ex)[:150]))


def basis_values(it, ps, method):
    """values of the basis polynomials at the points"""
    ps = resolve(ps)
    l = it.as_list(ps)
    n = l.length()
    import ast
    t = None
    if method == "symbolic":
        t = it.getattr(cls(it, "Collocation"), "TVAR", None)

    v = fresh("J")
    q = resolve(l.get(var0(v)))
    while isinstance(q, Gated):
        q = resolve(q.b if resolve(q.a) is None else q.a)
    e = pl.entry(q)
    x = ar.as_ca(resolve(t)) if t is not None else pl.z()

    def f(j, i):
        def run():
            key = pl.lb.symkey_at(x, 0, 0)
            at = float(ev(sym("tau", i)))
            tm.CUR.bind[v] = int(ev(j))
            try:
                return lift(pl.along(e, key)(at))
            finally:
                tm.CUR.bind.pop(v)
        return lazy(run)
    return Arr("np", (n, sym("m")), f)


def backends(seed, path, rep):
    """which values of the setting select the symbolic back end is the code's own choice; both are analysed"""


def job(a):
    import sys
    sys.setrecursionlimit(20000)
    kind, seed, path, args = a
    rep = Report()
    try:
        if kind == "nodes":
            nodes_of(seed, path, *args, rep=rep)
        elif kind == "reported":
            reported(seed, path, rep)
        else:
            operator(seed, path, *args, rep=rep)
    except Exception:
        rep.undec("%s %s" % (kind, args), "analysis stopped: " + traceback.format_exc(limit=-3))
    return rep


def run(seed, tier, path=SRC, prop=None):
    jobs = []
    q = tier == "quick"
    if prop in (None, "C13"):
        jobs += [("nodes", seed, path, (s, w, 3 if q else 8)) for s in SCHEMES for w in WAYS]
        jobs.append(("reported", seed, path, ()))
    if prop in (None, "C14"):
        jobs += [("op", seed, path, (m, c, 5 if q else 25)) for m in ("symbolic", "numerical") for c in CASES]
    rep = Report()
    for r in pmap(job, jobs, rep):
        rep.merge(r)
    rep.rules = {"C13": ["number, ends and family of the nodes as terms in the degree and the interval limits",
                         "limits reported to post processing equal those of the nodes"],
                 "C14": ["entry (row, column) of every operator equals the Lagrange basis expression of the nodes, for "
                         "symbolic degree, nodes, points and limits"]}.get(prop, [])
    return rep
