"""Symbolic problem, collocation and solver the analysis interprets the source with."""
from . import terms as tm
from .terms import (T, lift, sym, t_eq, t_le, t_lt, t_sum, ev, ZERO, ONE, TRUE, FALSE, opaque, top, var0,
                    fresh)
from .values import *
from . import arrays as ar
from . import interp as ip
from .interp import ObjC, Interp, Module, ExtStr
from . import lib as lb
from .lib import Data, Lib

REPO_FILE = "/repo/mpopt/mpopt.py"
FAMS = {"dynamics": ("dyn", 4), "path_constraints": ("pc", 4), "running_costs": ("rc", 4),
        "terminal_costs": ("tc", 5), "terminal_constraints": ("tcon", 5)}


class CBData(Data):
    """arguments of a user function; evaluation is logged"""

    def __init__(self, vals, fam, phase):
        Data.__init__(self, vals)
        self.fam, self.phase = fam, phase

    def subst(self, v, t):
        return CBData([vsubst(x, v, t) for x in self.vals], self.fam, self.phase.subst(v, t))

    def fv(self):
        return Data.fv(self) | self.phase.fv()

    def evaluate(self):
        r = Data.evaluate(self)
        log = getattr(tm.CUR, "log", None)
        if log is not None:
            log.add((self.fam, int(ev(self.phase)), flatnum(r)))
        return flatnum(r)


def flatnum(r):
    """nested tuples of numbers, one flat tuple per argument"""
    out = []
    for a in r:
        acc = []

        def walk(x):
            if isinstance(x, tuple):
                for y in x:
                    walk(y)
            else:
                acc.append(x)
        walk(a)
        out.append(tuple(acc))
    return tuple(out)


class Taus(Model):
    """collocation._taus_fn"""
    cls = "taus_fn"

    def __init__(self, scheme):
        self.scheme = scheme

    def call(self, it, args, kw, node):
        deg = ar.to_scalar(resolve(it.freeze(args[0]) if args else it.freeze(list(kw.values())[0])))
        return root_arr(deg, self.scheme)

    def getattr(self, it, name, node):
        return TopV("taus_fn." + name)


def root_arr(deg, scheme=None):
    if isinstance(scheme, str) and scheme == "OLD":
        return Arr("np", (deg + 1,), lambda i: sym("oldroot", deg, i))
    return Arr("np", (deg + 1,), lambda i: sym("root", deg, i))


class Roots(Model):
    """collocation.roots"""
    cls = "roots"

    def __init__(self, scheme=None):
        self.scheme = scheme

    def getitem(self, it, idx, node):
        idx = resolve(idx)
        return root_arr(ar.to_scalar(resolve(idx[0] if isinstance(idx, tuple) else idx)), self.scheme)

    def getattr(self, it, name, node):
        return TopV("roots." + name)

    def contains(self, it, x):
        return TRUE


class Cfg:
    def __init__(self, P="sym", na="sym", S="sym", composite=False):
        self.ext, self.class_override, self.func_hooks = {}, {}, {}
        self.plt = self.on_nlpsol = None
        self.casfun = self.poly_call = None
        self.nsym = 0
        self.calls = []
        self.P = ONE if P == 1 else sym("P")
        self.na = ZERO if na == 0 else sym("na")
        self.S = ONE if S == 1 else sym("S")
        self.solver_calls = []
        self.usercalls = []
        self.cacheable = {}
        if composite:
            for n in ("init_polynomials", "get_diff_matrix", "get_quadrature_weights", "get_interpolation_matrix"):
                self.func_hooks[("Collocation", n)] = getattr(self, "leaf_" + n)
            return
        for n in ("__init__", "get_composite_differentiation_matrix",
                  "get_composite_interpolation_matrix", "get_composite_interpolation_Dmatrix_at",
                  "init_polynomials_with_customized_roots", "init_polynomials", "get_diff_matrix",
                  "get_quadrature_weights", "get_interpolation_matrix"):
            self.func_hooks[("Collocation", n)] = getattr(self, "col_" + n.strip("_"))

    # --------------------------------------------------------------- symbols
    def symname(self, it, name, nd):
        self.nsym += 1
        return "%s@%d" % (name, self.nsym)

    # ------------------------------------------------------------- callbacks
    def user_call(self, it, cb, args, node):
        fam = cb.fam
        p = cb.idx[0]
        args = [arg_value(a) for a in args]
        self.usercalls.append((fam, p, len(args), it.where(node), list(tm.FACTS), list(it.loops),
                               [it.where_of(f) for f in it.frames] if hasattr(it, "where_of") else None))
        it.event("usercall", node, fam=fam, phase=p, args=tuple(args))
        data = CBData(args, fam, p)
        if fam in ("rc", "tc"):
            return opaque(fam, data, (p,))
        if fam == "dyn":
            return self.items(it, fam, data, p, sym("nx"))
        n = sym("n" + fam, p)
        has = t_eq(sym("has_" + fam, p), ONE)
        v = fresh("k")
        l = it.new(ListVal([Comp(v, n, [Item(opaque(fam, data, (p, var0(v))))])]))
        return gate(has, l, None)

    def items(self, it, fam, data, p, n):
        v = fresh("k")
        return it.new(ListVal([Comp(v, n, [Item(opaque(fam, data, (p, var0(v))))])]))

    def solver_call(self, it, solver, args, kw, node):
        kws = dict((k, it.freeze(v)) for k, v in kw.items() if k != "**")
        for d in kw.get("**", []):
            c = it.get(d) if isinstance(d, Ref) else d
            if isinstance(c, DictVal):
                for w in c.writes:
                    if isinstance(w[2], str):
                        v = it.freeze(w[3])
                        old = kws.get(w[2])
                        kws[w[2]] = v if w[1] == TRUE else gate(w[1], v, old if old is not None else Absent)
                if c.ext:
                    kws["**" + c.ext] = TopV(c.ext)
            else:
                kws["**"] = TopV("unknown")
        k = len(self.solver_calls)
        self.solver_calls.append((solver, args, kws, it.where(node), list(tm.FACTS), list(it.loops)))
        it.event("solvercall", node, solver=solver, kw=DictVal([((), TRUE, k2, v) for k2, v in kws.items()]))
        return self.solution(it, solver, kws, node)

    def solution(self, it, solver, kws, node):
        d = DictVal([], "solution")
        return it.new(d)

    # ----------------------------------------------------------- collocation
    def _args(self, it, f, args, kw, node, n):
        vs = it.bind_args(f, args, kw, node)
        if vs is None:
            return None
        a = f.node.args
        pos = [x.arg for x in a.args]
        out = [it.freeze(vs[x]) for x in pos]
        return (out + [None] * n)[:n]

    def col_init(self, it, f, args, kw, node):
        vs = self._args(it, f, args, kw, node, 4)
        if vs is None:
            return (None,)
        self_, poly, scheme, ptype = vs
        at = {"poly_orders": it.new(poly) if isinstance(poly, ListVal) else poly, "colloc_scheme__": scheme,
              "_taus_fn": Taus(resolve(scheme)), "tau0": sym("tau0"), "tau1": sym("tau1"), "roots": Roots(resolve(scheme)),
              "polys": TopV("polys"), "unique_polys": TopV("unique_polys"), "poly_fn": TopV("poly_fn"),
              "diff_matrix_fn": self.bound_fn(it, "get_diff_matrix"),
              "quad_matrix_fn": self.bound_fn(it, "get_quadrature_weights")}
        if not isinstance(self_, Ref):
            return (None,)
        o = it.get(self_)
        for k, v in at.items():
            o = o.set(k, v)
        it.put(self_, o)
        it.event("newcolloc", node, poly=poly, scheme=scheme)
        return (None,)

    def bound_fn(self, it, name):
        c, node = it.mod.find("Collocation", name)
        return it.wrap_class_attr(c, node, None, "Collocation") if node is not None else TopV(name)

    def poly_of(self, it, self_, poly):
        if resolve(poly) is None:
            poly = it.freeze(it.getattr(self_, "poly_orders", None))
        return resolve(poly)

    def scheme_of(self, it, self_):
        return it.getattr(self_, "colloc_scheme__", None)

    def npts(self, it, poly):
        return lb.sum1(it, poly, ZERO)

    def col_get_composite_differentiation_matrix(self, it, f, args, kw, node):
        vs = self._args(it, f, args, kw, node, 3)
        if vs is None:
            return (TopV("arity"),)
        self_, poly, order = vs
        poly = self.poly_of(it, self_, poly)
        d = Data([poly, self.scheme_of(it, self_), order])
        n = self.npts(it, poly) + 1
        return (Arr("ca", (n, n), lambda i, j: opaque("compD", d, (i, j))),)

    def taus_rows(self, it, taus):
        """total number of points"""
        taus = resolve(taus)
        l = it.as_list(taus)
        if isinstance(l, (WList, CarryList)):
            return t_sum(l.length(), lambda i: ar.to_scalar(lb.len1(it, resolve(l.get(i)))))
        return lb.sum1(it, ListVal([map_part(p, lambda x: lb.len1(it, x)) for p in l.parts]), ZERO)

    def col_get_composite_interpolation_matrix(self, it, f, args, kw, node):
        vs = self._args(it, f, args, kw, node, 3)
        if vs is None:
            return (TopV("arity"),)
        self_, taus, poly = vs
        return (self.comp_mat(it, "compI", self_, taus, poly, None),)

    def col_get_composite_interpolation_Dmatrix_at(self, it, f, args, kw, node):
        vs = self._args(it, f, args, kw, node, 4)
        if vs is None:
            return (TopV("arity"),)
        self_, taus, poly, order = vs
        return (self.comp_mat(it, "compID", self_, taus, poly, order),)

    def comp_mat(self, it, name, self_, taus, poly, order):
        poly = self.poly_of(it, self_, poly)
        taus = resolve(taus)
        if isinstance(taus, (Gated, LazyV)):
            return distribute(taus, lambda x: self.comp_mat(it, name, self_, x, poly, order))
        if isinstance(taus, TopV):
            return TopV("evaluation points")
        vals = [poly, self.scheme_of(it, self_), taus, order]
        d = Data(vals)
        n = self.npts(it, poly) + 1
        rows = self.taus_rows(it, taus)
        return Arr("np", (rows, n), lambda i, j: opaque(name, d, (i, j)))

    def col_init_polynomials_with_customized_roots(self, it, f, args, kw, node):
        vs = self._args(it, f, args, kw, node, 2)
        if vs is None:
            return (None,)
        self_, d = vs
        o = it.get(self_)
        it.put(self_, o.set("custom_roots__", d))
        return (None,)

    def col_init_polynomials(self, it, f, args, kw, node):
        return (None,)

    def col_get_diff_matrix(self, it, f, args, kw, node):
        return (TopV("diff matrix"),)

    def col_get_interpolation_matrix(self, it, f, args, kw, node):
        return (TopV("interpolation matrix"),)

    # ---- leaves of the composite operators (C12)
    old_scheme = False

    def leaf_data(self, vals):
        """operators of an object with another scheme are others"""
        return Data(list(vals) + [lift(77)] if self.old_scheme else list(vals))

    def leaf_init_polynomials(self, it, f, args, kw, node):
        return (None,)

    def leaf_get_diff_matrix(self, it, f, args, kw, node):
        vs = self._args(it, f, args, kw, node, 4)
        if vs is None:
            return (TopV("arity"),)
        self_, key, taus, order = vs
        deg = ar.to_scalar(resolve(key))
        taus = resolve(taus)
        n = deg + 1 if taus is None else lb.len1(it, taus)
        pts = root_arr(deg) if taus is None else taus
        d = self.leaf_data([deg, pts, order])
        return (Arr("ca", (n, deg + 1), lambda i, j: opaque("segD", d, (i, j))),)

    def leaf_get_interpolation_matrix(self, it, f, args, kw, node):
        vs = self._args(it, f, args, kw, node, 3)
        if vs is None:
            return (TopV("arity"),)
        self_, taus, key = vs
        deg = ar.to_scalar(resolve(key))
        d = self.leaf_data([deg, taus])
        return (Arr("ca", (lb.len1(it, resolve(taus)), deg + 1), lambda i, j: opaque("segI", d, (i, j))),)

    def leaf_get_quadrature_weights(self, it, f, args, kw, node):
        vs = self._args(it, f, args, kw, node, 4)
        if vs is None:
            return (TopV("arity"),)
        self_, key, t0, t1 = vs
        deg = ar.to_scalar(resolve(key))
        d = self.leaf_data([deg, sym("tau0") if t0 is None else t0, sym("tau1") if t1 is None else t1])
        return (Arr("ca", (deg + 1, ONE), lambda i, j: opaque("segW", d, (i,))),)

    def col_get_quadrature_weights(self, it, f, args, kw, node):
        vs = self._args(it, f, args, kw, node, 4)
        if vs is None:
            return (TopV("arity"),)
        self_, key, t0, t1 = vs
        cr = it.get(self_).attrs.get("custom_roots__") if isinstance(self_, Ref) else None
        key = resolve(key)
        t0 = sym("tau0") if t0 is None else ar.to_scalar(t0)
        t1 = sym("tau1") if t1 is None else ar.to_scalar(t1)
        if isinstance(key, (str, StrT)):
            if not isinstance(cr, DictVal):
                return (TopV("unknown key"),)
            pres, roots = it.dict_get(cr, key)
            roots = resolve(roots)
            if isinstance(roots, TopV):
                return (roots,)
            n = lb.len1(it, roots)
            d = Data([self.scheme_of(it, self_), roots, t0, t1])
            return (Arr("ca", (n, ONE), lambda i, j: opaque("quadW", d, (i,))),)
        deg = ar.to_scalar(key)
        d = Data([self.scheme_of(it, self_), root_arr(deg), t0, t1])
        return (Arr("ca", (deg + 1, ONE), lambda i, j: opaque("quadW", d, (i,))),)


Absent = "<absent>"


def map_part(p, f):
    if isinstance(p, Item):
        return Item(f(p.v))
    if isinstance(p, Comp):
        return Comp(p.v, p.n, [map_part(q, f) for q in p.parts])
    if isinstance(p, Opt):
        return Opt(p.c, [map_part(q, f) for q in p.a], [map_part(q, f) for q in p.b])
    if isinstance(p, LazyParts):
        return LazyParts(lambda: [map_part(q, f) for q in p.force()])
    raise Unsupported("part")


def arg_value(a):
    """argument of a user function as numbers"""
    a = resolve(a)
    if isinstance(a, tuple):
        return ListVal([Item(x) for x in a])
    return a


def np1(name, n):
    return Arr("np", (n,), lambda k: sym(name, k))


def np2(name, n, m):
    return Arr("np", (n, m), lambda i, j: sym(name, i, j))


def make_ocp(it, cfg):
    nx, nu, na, P = sym("nx"), sym("nu"), cfg.na, cfg.P
    at = {"nx": nx, "nu": nu, "na": na, "n_phases": P, "scale_t": sym("scale_t"),
          "scale_x": np1("scale_x", nx), "scale_u": np1("scale_u", nu), "scale_a": np1("scale_a", na)}
    for attr, (fam, n) in FAMS.items():
        v = fresh("p")
        at[attr] = it.new(ListVal([Comp(v, P, [Item(Callback(fam, (var0(v),)))])]))
    v = fresh("p")
    at["phase_links"] = it.new(ListVal([Comp(v, sym("nlinks") if P != ONE else ZERO,
                                             [Item((sym("link_i", var0(v)), sym("link_j", var0(v))))])]))
    for n in ("x00", "xf0", "lbx", "ubx"):
        at[n] = np2(n, P, nx)
    for n in ("u00", "uf0", "lbu", "ubu"):
        at[n] = np2(n, P, nu)
    for n in ("a0", "lba", "uba"):
        at[n] = np2(n, P, na)
    for n in ("t00", "tf0", "lbt0", "ubt0", "lbtf", "ubtf"):
        at[n] = np2(n, P, ONE)
    at["lbe"] = np2("lbe", sym("nlinks") if P != ONE else ZERO, nx)
    at["ube"] = np2("ube", sym("nlinks") if P != ONE else ZERO, nx)
    for n in ("diff_u", "midu", "du_continuity", "lbdu", "ubdu"):
        at[n] = np1(n, P)
    at["n_figures"] = sym("n_figures")
    v = fresh("p")
    at["phases_to_plot"] = TopV("phases_to_plot")
    at["plot_type"] = sym("plot_type")
    at["plot_interpolation_level"] = sym("pil")
    return it.new(ObjC("OCP", at))


MINS = {"P": 2, "na": 1, "nx": 1, "nu": 1, "S": 1, "npc": 1, "ntcon": 1, "nlinks": 1, "p": 1, "nT": 1}


def setup(P="sym", na="sym", S="sym", path=None, cfg=None):
    tm.MIN.clear()
    tm.MIN.update(MINS)
    tm.FACTS.clear()
    cfg = cfg or Cfg(P, na, S)
    mod = Module(path or REPO_FILE)
    it = Interp(mod, Lib(cfg))
    it.cfg = cfg
    return it, cfg


def poly_list(it, cfg):
    v = fresh("s")
    return it.new(ListVal([Comp(v, cfg.S, [Item(sym("p", var0(v)))])]))


def top_frame(it):
    it.frames.append(it.new(ip.FrameC({}, None, None, "<analysis>")))


# ------------------------------------------------------------- valuations
def valuation(seed=1, P=2, na=2, nx=2, nu=3, S=2, p=(2, 3, 1), over=None):
    t0, t1 = -0.7, 0.9

    def root(deg, i):
        if i <= 0:
            return t0
        if i >= deg:
            return t1
        return t0 + (t1 - t0) * (i / deg) ** 1.3
    npc = {0: 1, 1: 2, 2: 3}
    ntc = {0: 2, 1: 1, 2: 4}
    fixed = {"P": P, "na": na, "nx": nx, "nu": nu, "S": S, "p": lambda s: p[int(s)],
             "tau0": t0, "tau1": t1, "root": root, "nlinks": max(P - 1, 0),
             "link_i": lambda v: v, "link_j": lambda v: v + 1,
             "npc": lambda q: npc[int(q)], "ntcon": lambda q: ntc[int(q)],
             "has_pc": lambda q: 1 if q != 0 else 0, "has_tcon": lambda q: 1 if q != 1 else 0,
             "diff_u": lambda q: 1 if q != 0 else 0, "midu": lambda q: 1 if q != 1 else 0,
             "du_continuity": lambda q: 1 if q == 0 else 0}
    fixed.update(over or {})
    e = tm.Env(seed, fixed)
    e.log = set()
    return e
