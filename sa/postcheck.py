"""C15-C19: retrieved data, interpolation, residuals and residual grids."""
import random, traceback, ast
from . import terms as tm
from .terms import ev, lift, sym, ONE, ZERO, TRUE, var0, fresh, t_eq, Undecided
from .values import *
from . import arrays as ar
from .harness import Cfg, setup, top_frame, make_ocp, poly_list, valuation, flatnum
from .nlpcheck import numvec, close, reachable, Sources
from .nlpspec import Spec, numbers
from .lib import Data, Subst, num_of
from .report import Report, SRC, pmap
from .sizes import grown, grow

GRIDS = ["fixed", "mid-points", "spectral"]


class PB:
    """an optimizer with a built NLP and a symbolic solution of it"""

    def __init__(self, cls, path, P="sym", na="sym", used=False):
        cfg = Cfg(P, na)
        for c in ("mpopt", "mpopt_h_adaptive", "mpopt_adaptive", "mpopt_ph_adaptive"):
            cfg.class_override[(c, "_MAX_GRID_POINTS")] = sym("maxg")
        cfg.class_override[("post_process", "_INTERPOLATION_NODES_PER_SEG")] = sym("nint")
        self.grids_used = []
        comp = cfg.comp_mat

        def comp_mat(it, name, self_, taus, poly, order):
            self.grids_used.append((name, taus))
            return comp(it, name, self_, taus, poly, order)
        cfg.comp_mat = comp_mat
        self.P = P
        self.cls, self.key = cls, (cls, P, na, "sym")
        it, cfg = setup(path=path, cfg=cfg)
        tm.MIN.update({"nq": 1, "maxg": 1, "nint": 2, "ph": 0, "pd": 0, "nd": 1, "phh": 0, "nTh": 1, "nT": 0})
        tm.FACTS.append((tm.t_lt(sym("phh"), cfg.P), True))
        tm.FACTS.append((tm.t_lt(sym("ph", ZERO), cfg.P), True))
        self.it, self.cfg = it, cfg
        top_frame(it)
        self.ocp = make_ocp(it, cfg)
        o = it.get(self.ocp)
        v = fresh("p")
        it.put(self.ocp, o.set("phases_to_plot", it.new(ListVal([Item(it.new(ListVal(
            [Comp(v, sym("nd"), [Item(sym("pd", var0(v)) if P != 1 else ZERO)])])))]))))
        if used:
            self.use_before(cls, used)
        else:
            self.mp = it.instantiate(cls, [self.ocp, cfg.S, poly_list(it, cfg), "SCH"], {}, None)
        it.call(it.getattr(self.mp, "create_solver", None), [], {}, None)
        self.grids_used.clear()
        Z = ar.as_ca(resolve(it.freeze(it.getattr(self.mp, "Z", None))))
        self.Z = Z
        self.sol = Arr("ca", (Z.shape[0], ONE), lambda i, j: sym("sol", i))
        self.solution = it.new(DictVal([((), TRUE, "x", self.sol)]))
        H = ar.flatten(ar.as_ca(resolve(it.freeze(it.getattr(self.mp, "seg_widths", None)))), "F", column=True)
        self.H = H
        v = fresh("q")
        # for free widths the valuation makes sw(i) the solution's own width entries
        sw = it.new(ListVal([Comp(v, cfg.P * cfg.S, [Item(sym("sw", var0(v)))])]))
        self.sw = sw
        v = fresh("q")
        gt = sym("gt", var0(v))
        kind = gate(t_eq(gt, ZERO), GRIDS[0], gate(t_eq(gt, ONE), GRIDS[1], GRIDS[2]))
        o = it.get(self.mp).set("_nlp_sw_params", sw)
        o = o.set("grid_type", it.new(ListVal([Comp(v, cfg.P, [Item(kind)])])))
        it.put(self.mp, o)
        self.attrs = it.get(self.mp).attrs

    def use_before(self, cls, used):
        """the optimizer has been used with other segments, orders and scheme and has then been reset"""
        it, cfg = self.it, self.cfg
        v, q = fresh("s"), fresh("q")
        S0 = sym("S0")
        tm.MIN.update({"S0": 1, "p0": 1})
        old = it.new(ListVal([Comp(v, S0, [Item(sym("p0", var0(v)))])]))
        if used == "scheme":
            S0, old = cfg.S, poly_list(it, cfg)
        self.mp = it.instantiate(cls, [self.ocp, S0, old, "OLD"], {}, None)
        rec, it.recording = it.recording, False
        it.call(it.getattr(self.mp, "create_solver", None), [], {}, None)
        n = ar.as_ca(resolve(it.freeze(it.getattr(self.mp, "Z", None)))).shape[0]
        self.solution = it.new(DictVal([((), TRUE, "x", Arr("ca", (n, ONE), lambda i, j: sym("oldsol", i)))]))
        sw = it.new(ListVal([Comp(q, cfg.P * S0, [Item(sym("oldsw", var0(q)))])]))
        it.put(self.mp, it.get(self.mp).set("_nlp_sw_params", sw))
        post = self.post()
        self.call(post, "get_original_data", [self.phases()])
        if cls == "mpopt":
            self.call(post, "get_interpolated_data", [self.phases(), it.new(ListVal([Comp(fresh("s"), S0, [Item(
                Arr("np", (lift(2),), lambda i: sym("oldtau", i)))])]))])
        it.recording = rec
        o = it.get(self.mp).set("n_segments", cfg.S).set("poly_orders", poly_list(it, cfg)).set("colloc_scheme", "SCH")
        it.put(self.mp, o)
        it.call(it.getattr(self.mp, "reset_mpopt", None), [], {}, None)
        self.it.notes.clear()

    def ph(self, i):
        return sym("ph", i) if self.P != 1 else ZERO

    def phases(self):
        v = fresh("q")
        return self.it.new(ListVal([Comp(v, sym("nq"), [Item(self.ph(var0(v)))])]))

    def nodes(self):
        a, b = fresh("q"), fresh("q")

        def pts(p, s):
            return Arr("np", (sym("nT", p, s),), lambda k: sym("tau", p, s, k))
        return self.it.new(ListVal([Comp(a, self.cfg.P, [Item(ListVal([
            Comp(b, self.cfg.S, [Item(pts(var0(a), var0(b)))])]))])]))

    def call(self, obj, name, args=(), kw=None):
        return self.it.freeze(self.it.call(self.it.getattr(obj, name, None), list(args), dict(kw or {}), None))

    def post(self, **kw):
        k = {"plot": tm.FALSE, "residual_dx": tm.FALSE, "residual_x": tm.FALSE}
        k.update(kw)
        return self.it.call(self.it.getattr(self.mp, "process_results", None), [self.solution], k, None)


def env_for(seed, k, b, larger=None):
    rng = random.Random("post/%s/%s/%s" % (seed, k, b.key))
    P = 1 if b.key[1] == 1 else rng.choice([2, 2, 3])
    S = rng.choice([2, 3] if k <= 1 else [1, 2, 2, 3])
    p = tuple(rng.choice([1, 2, 3]) for _ in range(S))
    if S > 1 and len(set(p)) == 1:
        p = (p[0] % 3 + 1,) + p[1:]
    sz = dict(P=P, na=0 if b.key[2] == 0 else rng.choice([1, 2]), nx=rng.choice([1, 2]), nu=rng.choice([1, 2]),
              S=S, p=p)
    if larger is not None:
        sz = grow(sz, *larger)
        P, S, p = sz["P"], sz["S"], sz["p"]
    nq = rng.choice([1, 2, 3])
    ph = [rng.randrange(P) for _ in range(nq)]
    if nq > 1 and len(set(ph)) == 1 and P > 1:
        ph[-1] = (ph[0] + 1) % P
    if k == 0 and P > 1:
        ph[0] = rng.randrange(1, P)
        if nq > 1:
            ph[1] = 0
    nd = rng.choice([1, 2])
    pd = [(q + 1) % P for q in ph] + [0]
    pd = pd[:nd]
    nT = [[rng.choice([1, 2] if k == 0 else [0, 1, 2]) for _ in range(S)] for _ in range(P)]
    if k == 1 and S > 1:
        # a segment without points before one that has some
        nT[ph[0]][0], nT[ph[0]][1] = 0, 2
    gt = [rng.choice([0, 1, 2]) for _ in range(P)]
    if P > 1 and len(set(gt)) == 1:
        gt[-1] = (gt[0] + 1) % 3
    w = []
    for _ in range(P):
        x = [rng.uniform(0.5, 2) for _ in range(S)]
        w += [y / sum(x) for y in x]
    over = {"S0": 2, "p0": lambda i: 2 - int(i) % 2, "phh": (ph[0] + 1) % P, "nTh": lambda s: 1 + int(s) % 2, "nq": nq, "ph": lambda k: ph[int(k)], "nd": nd, "pd": lambda k: pd[int(k)], "nT": lambda a, s: nT[int(a)][int(s)],
            "gt": lambda a: gt[int(a)], "maxg": rng.choice([1, 2, 4]), "nint": rng.choice([2, 3]),
            "sw": lambda i: w[int(i)]}
    e = valuation(seed=seed * 991 + k, over=over, **sz)
    e.sizes = dict(sz, phases=ph, grids=[GRIDS[g] for g in gt])
    e.widths, e.ph, e.pd, e.nT, e.gt = w, ph, pd, nT, gt
    # the solution holds the widths where they are variables
    if b.cls == "mpopt_adaptive":
        e.fixed["sol"] = lambda i: i
        with tm.use_env(e):
            d = Subst([b.Z], [b.sol]).table()
            pos = {}
            n = int(ev(b.H.shape[0]))
            from .lib import symkey_at
            for i in range(n):
                pos[d[symkey_at(b.H, i, 0)]] = w[i]
        del e.fixed["sol"]
        e.cache.clear()
        e.fixed["sol"] = lambda i: pos[int(i)] if int(i) in pos else tm.hashreal(e.seed, "sol", (i,))
    return e


class PSpec(Spec):
    """specification quantities at the symbolic solution"""

    def __init__(self, b, e):
        s = Subst([b.Z], [b.sol])
        if b.cls != "mpopt_adaptive":
            n = b.H.shape[0]
            s = Subst([b.Z, b.H], [b.sol, Arr("ca", (n, ONE), lambda i, j: sym("sw", i))])
        d = s.table()
        e.subst.append(d)
        try:
            Spec.__init__(self, b, b.cls == "mpopt_adaptive")
        finally:
            e.subst.pop()
        self.calls = set()
        self.widths = [[e.widths[p * self.S + k] for k in range(self.S)] for p in range(self.P)]

    def rows(self, taus):
        return [(s, k) for s in range(self.S) for k in range(len(taus[s]))]

    def at(self, mat, vals, r, taus, order=None):
        if mat == "I":
            return [sum(self.compI(taus, r, j) * vals[j][k] for j in range(self.N)) for k in range(len(vals[0]))]
        return [sum(self.compID(taus, r, j, order) * vals[j][k] for j in range(self.N)) for k in range(len(vals[0]))]

    def points(self, p, taus):
        """per row: states, controls, time, dynamics (scaled), step"""
        out = []
        for r, (s, k) in enumerate(self.rows(taus)):
            x = self.at("I", self.X[p], r, taus)
            u = self.at("I", self.U[p], r, taus)
            t = self.time_at(s, taus[s][k], p)
            f = [self.sx(i) * self.call("dyn", p, self.args_at(x, u, t, p), i) for i in range(self.nx)]
            out.append((s, k, x, u, t, f, self.h(s, p)))
        return out


# ------------------------------------------------------------------ reading
def vec(v):
    """numbers of a value, None for unknown"""
    v = resolve(v)
    if isinstance(v, LazyV):
        v = v.force()
    return numvec(v)


def mat(v):
    """rows of numbers (any trailing shape flattened)"""
    v = resolve(v)
    while isinstance(v, LazyV):
        v = v.force()
    if v is None:
        return []
    if isinstance(v, Arr):
        r = int(ev(v.shape[0]))
        if v.ndim == 1:
            return [[ev(v.at(lift(i)))] for i in range(r)]
        n, why = numvec(v)
        if why:
            raise Undecided(why[0])
        if v.kind == "ca":
            c = int(ev(v.shape[1]))
            return [[n[j * r + i] for j in range(c)] for i in range(r)]
        w = len(n) // r if r else 0
        return [list(n[i * w:(i + 1) * w]) for i in range(r)]
    if isinstance(v, (ListVal, tuple)):
        out = []
        l = v if isinstance(v, ListVal) else ListVal([Item(x) for x in v])
        for i in range(int(ev(l.length()))):
            x = resolve(l.get(lift(i)))
            out.append(numbers(x) if not isinstance(x, (tm.T, int, float)) else [ev(lift(x))])
        return out
    raise Undecided("matrix %r" % (v,))


def per(it, v, i):
    v = resolve(v)
    while isinstance(v, LazyV):
        v = v.force()
    l = it.as_list(v)
    r = resolve(it.freeze(l.get(lift(i))))
    while isinstance(r, LazyV):
        r = resolve(r.force())
    return r


def same(a, b):
    return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))


# -------------------------------------------------------------------- cases
def other(b):
    return sym("phh") if b.P != 1 else ZERO


def other_points(b, lead=()):
    def pts(s):
        return Arr("np", (sym("nTh", s),), lambda k: sym("tauh", s, k))
    v = fresh("q")
    return ListVal([Comp(v, b.cfg.S, [Item(pts(var0(v)))])])


def earlier(b, kind, meth=None, post=None):
    """queries made before, for another phase and other points: they must not show in later answers"""
    if b.cls == "mpopt":
        return
    it = b.it
    rec, it.recording = it.recording, False
    try:
        if kind == "grids":
            for g in GRIDS:
                b.call(b.mp, "get_residual_grid_taus", [other(b), g])
        elif kind == "residuals" and more:
            single = meth.endswith("single_phase") or meth.startswith("compute_")
            if single:
                name = "target_nodes" if meth == "get_dynamics_residuals_single_phase" else "nodes"
                b.call(b.mp, meth, [b.solution], {"phase": other(b), name: it.new(other_points(b))})
            else:
                v = fresh("q")
                b.call(b.mp, meth, [b.solution], {"nodes": it.new(ListVal([
                    Comp(v, b.cfg.P, [Item(other_points(b))])]))})
            for g in GRIDS[:1]:
                b.call(b.mp, "get_residual_grid_taus", [other(b), g])
        else:
            ph = it.new(ListVal([Item(other(b))]))
            b.call(post, "get_trajectories", [other(b)])
            if kind == "interpolation":
                b.call(post, "get_interpolated_data", [ph, it.new(other_points(b))])
            else:
                b.call(post, "get_original_data", [ph])
    finally:
        it.recording = rec


def retrieval(b, scaling, how):
    """C15: interpretation part; returns the thunk comparing under a valuation"""
    it = b.it
    post = b.post(scaling=tm.TRUE if scaling else tm.FALSE)
    earlier(b, "retrieval", post=post)
    if how == "one":
        r = b.call(post, "get_trajectories", [b.ph(ZERO)])
    elif how == "list":
        r = b.call(post, "get_original_data", [b.phases()])
    elif how == "default":
        r = b.call(post, "get_original_data", [])
    elif how == "data":
        r = b.call(post, "get_data", [], {"phases": b.phases(), "interpolate": tm.FALSE})
    else:
        r = b.call(post, "get_data", [])

    def cmp(e, add, rep):
        s = PSpec(b, e)
        phs = e.ph[:1] if how == "one" else e.pd if how in ("default", "data0") else e.ph
        sx = (lambda k: 1) if scaling else s.sx
        su = (lambda k: 1) if scaling else s.su
        sa = (lambda k: 1) if scaling else s.sa
        want = {"states": [[x / sx(k) for k, x in enumerate(s.X[p][i])] for p in phs for i in range(s.N)],
                "controls": [[x / su(k) for k, x in enumerate(s.U[p][i])] for p in phs for i in range(s.N)],
                "times": [[s.node_time(i, p)] for p in phs for i in range(s.N)],
                "parameters": [[s.A[k][p] / sa(k)] for p in phs for k in range(s.na)]}
        compare4(b, r, want, "C15", add, rep, "get_trajectories" if how == "one" else "get_original_data")
    return cmp


def compare4(b, r, want, prop, add, rep, where):
    r = resolve(r)
    if not isinstance(r, tuple) or len(r) != 4:
        rep.undec(where, "result %r" % (r,))
        return
    for v, (name, w) in zip(r, want.items()):
        try:
            g = mat(v)
        except Undecided as ex:
            rep.undec(where + " " + name, ex)
            continue
        flatg, flatw = [x for q in g for x in q], [x for q in w for x in q]
        rep.ob("%s entries compared" % name, len(flatw))
        if name == "parameters" and not flatw:
            continue
        if len(flatg) != len(flatw) or (len(w) and len(g) != len(w) and name in ("states", "controls")):
            add(prop, "%s: size" % name, where, "%d rows of %d values, required %d rows of %d" % (
                len(g), len(g[0]) if g else 0, len(w), len(w[0]) if w else 0))
        elif not same(flatg, flatw):
            k = [close(x, y) for x, y in zip(flatg, flatw)].index(False)
            add(prop, "%s differ" % name, where, "entry %d is %.6g, required %.6g" % (k, flatg[k], flatw[k]))


def interpolation(b, how, scaling=False):
    it = b.it
    post = b.post(scaling=tm.TRUE if scaling else tm.FALSE)
    earlier(b, "interpolation", post=post)
    b.grids_used.clear()
    if how == "given":
        v = fresh("q")
        taus = it.new(ListVal([Comp(v, b.cfg.S, [Item(Arr("np", (sym("nT", ZERO, var0(v)),),
                                                           lambda k, s=var0(v): sym("tau", ZERO, s, k)))])]))
        # the array closes over the bound variable through its own terms
        taus = it.new(ListVal([Comp(v, b.cfg.S, [Item(pts0(var0(v)))])]))
        r = b.call(post, "get_interpolated_data", [b.phases(), taus])
    elif how == "data":
        r = b.call(post, "get_data", [], {"phases": b.phases(), "interpolate": tm.TRUE})
    else:
        r = b.call(post, "get_data", [], {"interpolate": tm.TRUE})
    used = list(b.grids_used)

    def cmp(e, add, rep):
        s = PSpec(b, e)
        if how == "given":
            taus = tuple(tuple(s.g("tau", 0, k, i) for i in range(e.nT[0][k])) for k in range(s.S))
        else:
            got = None
            for name, t in used:
                if name == "compI":
                    try:
                        got = num_of(t)
                        break
                    except Undecided:
                        continue
            if got is None:
                rep.undec("interpolation grid", "not found")
                return
            taus = tuple(tuple(x) for x in got)
            if len(taus) != s.S:
                add("C16", "interpolation grid", "get_interpolated_data", "%d lists of points for %d segments" % (
                    len(taus), s.S))
                return
        sx = (lambda k: 1) if scaling else s.sx
        su = (lambda k: 1) if scaling else s.su
        sa = (lambda k: 1) if scaling else s.sa
        rows = s.rows(taus)
        I = lambda p, V, sc: [[x / sc(k) for k, x in enumerate(s.at("I", V[p], r, taus))]
                              for r in range(len(rows))]
        phs = e.pd if how == "default" else e.ph
        want = {"states": [q for p in phs for q in I(p, s.X, sx)],
                "controls": [q for p in phs for q in I(p, s.U, su)],
                "times": [[s.time_at(g, taus[g][k], p)] for p in phs for g, k in rows],
                "parameters": [[s.A[k][p] / sa(k)] for p in phs for k in range(s.na)]}
        compare4(b, r, want, "C16", add, rep, "get_interpolated_data")
    return cmp


def pts0(s):
    return Arr("np", (sym("nT", ZERO, s),), lambda k: sym("tau", ZERO, s, k))


def grids(b):
    """every grid type for every phase: number of lists, position of the points"""
    earlier(b, "grids")
    res = {g: b.call(b.mp, "get_residual_grid_taus", [b.ph(ZERO), g]) for g in GRIDS}
    own = b.call(b.mp, "get_residual_grid_taus", [], {"phase": b.ph(ZERO)})

    def cmp(e, add, rep):
        s = PSpec(b, e)
        p = e.ph[0]
        got = {}
        for g, v in res.items():
            t = read_grid(b, v)
            got[g] = t
            rep.ob("grid points checked", sum(len(x) for x in t))
            if len(t) != s.S:
                add("C19", "%s grid" % g, "get_residual_grid_taus", "%d lists for %d segments" % (len(t), s.S))
                continue
            if any(not (s.t0s - 1e-9 <= x <= s.t1s + 1e-9) for q in t for x in q):
                add("C19", "%s grid leaves the segment" % g, "get_residual_grid_taus", "points %s" % (t,))
            if g == "fixed":
                fr = []
                for k, q in enumerate(t):
                    c = sum(s.widths[p][:k])
                    fr += [c + s.widths[p][k] * (x - s.t0s) / (s.t1s - s.t0s) for x in q]
                if len(fr) == 0:
                    add("C19", "fixed grid empty", "get_residual_grid_taus", "no points")
                    continue
                if min(fr) < 1e-9 or max(fr) > 1 - 1e-9:
                    add("C19", "fixed grid includes an end of the phase", "get_residual_grid_taus",
                        "phase fractions %s" % (fr,))
                gaps = [y - x for x, y in zip([0] + fr, fr + [1])]
                if max(gaps) - min(gaps) > 1e-6 * (1 + max(gaps)):
                    add("C19", "fixed grid is not equally spaced", "get_residual_grid_taus", "gaps %s" % (gaps,))
            elif g == "mid-points":
                for k, q in enumerate(t):
                    want = [(s.root(s.p[k], i) + s.root(s.p[k], i + 1)) / 2.0 for i in range(s.p[k])]
                    if not same(list(q), want):
                        add("C19", "mid-point grid", "get_residual_grid_taus", "segment %d: %s, required %s" % (
                            k, q, want))
                        break
        t = read_grid(b, own)
        w = got[GRIDS[e.gt[p]]]
        if not same([x for q in t for x in q], [x for q in w for x in q]):
            add("C19", "own grid type of the phase", "get_residual_grid_taus", "points %s, required the %s grid %s" % (
                t, GRIDS[e.gt[p]], w))
    return cmp


def read_grid(b, v):
    v = resolve(v)
    while isinstance(v, LazyV):
        v = resolve(v.force())
    if v is None:
        raise Undecided("no grid")
    l = b.it.as_list(v)
    out = []
    for k in range(int(ev(l.length()))):
        q = mat(per(b.it, v, k))
        out.append(tuple(x[0] for x in q))
    return tuple(out)


METHS = {"get_dynamics_residuals": (0, 1), "get_states_residuals": (2, 3), "get_state_second_derivative": (0, 1),
         "get_dynamics_residuals_single_phase": (0, 1), "get_state_second_derivative_single_phase": (0, 1),
         "compute_states_from_solution_dynamics": (2, 3)}


def residuals(b, meth, mode):
    """mode: nodes, own (default grid), or a grid type name"""
    it = b.it
    single = meth.endswith("single_phase") or meth.startswith("compute_")
    kw = {}
    if single:
        kw["phase"] = b.ph(ZERO)
    if mode == "nodes":
        n = b.nodes()
        if single:
            name = "target_nodes" if meth == "get_dynamics_residuals_single_phase" else "nodes"
            kw[name] = it.as_list(n).get(b.ph(ZERO))
            kw[name] = it.new(kw[name]) if isinstance(kw[name], ListVal) else kw[name]
        else:
            kw["nodes"] = n
    elif mode != "own":
        kw["grid_type"] = mode
    expect = {}
    second = "second" in meth
    earlier(b, "residuals", meth)
    r = b.call(b.mp, meth, [b.solution], kw)
    # the grids the property names, from the grid function itself (checked on its own)
    if mode != "nodes":
        v = fresh("g")
        for g in GRIDS:
            expect[g] = lambda q, g=g: b.call(b.mp, "get_residual_grid_taus", [q, g])
        cache = {}
        v = sym("phq")
        tm.MIN["phq"] = 0
        tm.FACTS.append((tm.t_lt(v, b.cfg.P), True))
        try:
            table = {g: expect[g](v) for g in GRIDS}
        finally:
            tm.FACTS.pop()

    def cmp(e, add, rep):
        s = PSpec(b, e)
        out = resolve(r)
        if not isinstance(out, tuple) or len(out) < 2:
            rep.undec(meth, "result %r" % (out,))
            return
        ti, res = METHS[meth]
        for p in ([e.ph[0]] if single else range(s.P)):
            if mode == "nodes":
                taus = tuple(tuple(s.g("tau", p, k, i) for i in range(e.nT[p][k])) for k in range(s.S))
            else:
                if mode == "own":
                    g = GRIDS[e.gt[p]]
                    if second and not single:
                        g = "spectral"
                else:
                    g = mode
                e.fixed["phq"] = p
                e.cache.clear()
                taus = read_grid(b, table[g])
            T = out[ti] if single else per(it, out[ti], p)
            times(b, s, e, meth, mode, p, taus, T, add, rep)
            R = out[res] if single else per(it, out[res], p)
            values(b, s, meth, p, taus, R, add, rep)
            if meth in ("get_states_residuals", "compute_states_from_solution_dynamics"):
                XI = out[0] if single else per(it, out[0], p)
                values(b, s, meth + "/x", p, taus, XI, add, rep)
            if second:
                DU = out[2] if single else per(it, out[2], p)
                values(b, s, meth + "/u", p, taus, DU, add, rep)
    return cmp


def times(b, s, e, meth, mode, p, taus, T, add, rep):
    it = b.it
    for k in range(s.S):
        want = [s.time_at(k, x, p) for x in taus[k]]
        try:
            got = [x[0] for x in mat(per(it, T, k))]
        except Undecided as ex:
            rep.undec(meth + " times", ex)
            continue
        rep.ob("residual times compared", len(want))
        if not same(got, want):
            prop = "C19" if mode != "nodes" else ("C18" if "state" in meth and "second" not in meth else
                                                   "C19" if "second" in meth else "C17")
            for q in sorted({prop, "C19"}):
                add(q, "times of the evaluation points", meth, "phase %d segment %d: %s, required %s (%s)" % (p, k, rnd(got), rnd(want), mode))
            return


def rnd(x):
    return [float("%.5g" % y) for y in x]


def values(b, s, meth, p, taus, R, add, rep):
    it = b.it
    name = meth.split("/")[0]
    part = meth[len(name) + 1:]
    if name.startswith("get_dynamics"):
        prop = "C17"
        want = {}
        for r, (g, k, x, u, t, f, h) in enumerate(s.points(p, taus)):
            dx = s.at("D", s.X[p], r, taus, 1)
            want.setdefault(g, []).append([a - h * c for a, c in zip(dx, f)])
    elif "second" in name:
        prop = "C17" if False else "C19"
        want = {}
        V = s.U if part == "u" else s.X
        for r, (g, k) in enumerate(s.rows(taus)):
            want.setdefault(g, []).append(s.at("D", V[p], r, taus, 2))
    else:
        prop = "C18"
        want = {}
        pts = s.points(p, taus)
        for g in range(s.S):
            mine = [q for q in pts if q[0] == g]
            for (_, k, x, u, t, f, h) in mine:
                q = []
                for i in range(s.nx):
                    integ = sum(s.opq("quadW", ("SCH", taus[g], s.t0s, taus[g][k]), (m,)) * mine[m][5][i]
                                for m in range(len(mine)))
                    xi = s.X[p][s.start[g]][i] + h * integ
                    q.append(xi if part == "x" else x[i] - xi)
                want.setdefault(g, []).append(q)
    for g in range(s.S):
        w = want.get(g, [])
        try:
            got = mat(per(it, R, g))
        except Undecided as ex:
            rep.undec(meth, ex)
            continue
        rep.ob("residual values compared", sum(len(q) for q in w))
        fg, fw = [x for q in got for x in q], [x for q in w for x in q]
        if not same(fg, fw):
            add(prop, "%s differ" % ({"x": "integrated states", "u": "control derivatives"}.get(part, "residuals" if
                                     "second" not in name else "second derivatives")), name,
                "phase %d segment %d: %s, required %s" % (p, g, rnd(fg[:4]), rnd(fw[:4])))
            return


def cases(tier):
    out = []
    for cls in ["mpopt", "mpopt_adaptive"] + (["mpopt_h_adaptive", "mpopt_ph_adaptive"] if tier != "quick" else []):
        for how in ("one", "list", "default", "data", "data0"):
            for sc in (False, True):
                out.append((cls, "retrieval", (sc, how)))
        for how in ("given", "data", "default"):
            out.append((cls, "interpolation", (how,)))
        out.append((cls, "interpolation", ("given", True)))
        out.append((cls, "grids", ()))
        for m in METHS:
            out.append((cls, "residuals", (m, "nodes")))
            if m != "get_dynamics_residuals_single_phase":
                out.append((cls, "residuals", (m, "own")))
        for g in GRIDS:
            out.append((cls, "residuals", ("get_dynamics_residuals", g)))
            out.append((cls, "residuals", ("get_state_second_derivative", g)))
            out.append((cls, "residuals", ("get_state_second_derivative_single_phase", g)))
    return out


AFTER = [(c, k, a) for c in ("mpopt", "mpopt_adaptive") for k, a in (
    ("retrieval", (False, "list")), ("interpolation", ("given",)), ("grids", ()),
    ("residuals", ("get_dynamics_residuals", "own")), ("residuals", ("get_states_residuals", "nodes")))]
KINDS = {"retrieval": retrieval, "interpolation": interpolation, "grids": grids, "residuals": residuals}
RELEVANT = {"C15": ("retrieval",), "C16": ("interpolation",), "C17": ("residuals",), "C18": ("residuals",),
            "C19": ("grids", "residuals")}


def job(j):
    (cls, kind, args), seed, nval, path, P, na = j[:6]
    used = j[6] if len(j) > 6 else None
    import sys
    sys.setrecursionlimit(20000)
    rep = Report()
    tag = "%s %s %s%s" % (cls, kind, "/".join(str(a) for a in args), " after a reset (%s)" % used if used else "")
    try:
        b = PB(cls, path, P, na, used=used)
        cmp = KINDS[kind](b, *args)
        rep.analysed |= set(b.it.called)
        for (line, why), n in b.it.notes.items():
            rep.undec("%s line %s" % (tag, line), why)
        src = Sources(path)

        def where(name):
            for c in src.mro(cls) + ["post_process"]:
                f = src.classes.get(c, ((), {}))[1].get(name)
                if f is not None:
                    return "%s.%s line %d" % (c, name, f.lineno)
            return name
        more = [d for d in grown(path) if not used and not (d[0] == "P" and P == 1 or d[0] == "na" and na == 0)]
        if kind == "residuals" and more:
            # one larger dimension per query, a different one for each
            q = sum(ord(c) for c in tag) % len(more)
            more = [d for j, d in enumerate(more) if j % 6 == q % 6]
        for k, d in [(k, None) for k in range(nval)] + [(nval + j, d) for j, d in enumerate(more)]:
            try:
                e = env_for(seed, k, b, d)
                with tm.use_env(e):
                    cmp(e, lambda prop, rule, w, d: rep.add(prop, rule, "%s (%s)" % (where(w), cls),
                                                             d + " [sizes %s]" % (e.sizes,)), rep)
            except Undecided as ex:
                rep.undec(tag, ex)
    except Undecided as ex:
        rep.undec(tag, ex)
    except Exception:
        rep.undec(tag, "analysis stopped: " + traceback.format_exc(limit=-3))
    return rep


def run(seed, tier, path=SRC, prop=None):
    nval = 2 if tier == "quick" else 8
    rep = Report()
    cs = [c for c in cases(tier) if prop is None or c[1] in RELEVANT[prop]]
    if prop in ("C17", "C18"):
        cs = [c for c in cs if ("dynamics_residuals" in c[2][0]) == (prop == "C17") and "second" not in c[2][0]]
    jobs = [(c, seed, nval, path, "sym", "sym") for c in cs]
    if tier != "quick":
        jobs += [(c, seed, nval, path, 1, na) for c in cs for na in ("sym", 0) if c[0] in ("mpopt", "mpopt_adaptive")]
        jobs += [(c, seed, nval, path, "sym", 0) for c in cs if c[0] in ("mpopt", "mpopt_adaptive")]
    else:
        jobs += [(c, seed, 1, path, 1, 0) for c in cs if c[0] == "mpopt" and (
            c[1] != "residuals" or c[2][1] in ("nodes", "own"))]
    jobs += [(c, seed, nval, path, "sym", "sym", u) for c in cs if c in AFTER for u in (
        ["scheme"] if c[1] == "residuals" else ["scheme", "sizes"])]
    jobs.sort(key=lambda j: 0 if j[0][1] == "residuals" else 1)
    for r in pmap(job, jobs, rep):
        rep.merge(r)
    rep.rules = ["returned states, controls, parameters and times equal the solution's entries in user units",
                 "interpolated data, residuals and second derivatives equal the specification's terms at the "
                 "evaluation points of the requested grid", "each phase uses its own or the requested grid"]
    return rep
