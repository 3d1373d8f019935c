"""What the transcribed problem has to be, written from the property texts, and its
comparison with the value graphs the analysis computes from the source."""
import math
from . import terms as tm
from .terms import ev, lift, sym, ZERO, ONE, T, Undecided, fresh
from .values import *
from . import arrays as ar
from .lib import nums_arr, Data, num_of
from .harness import (setup, top_frame, make_ocp, poly_list, valuation, flatnum, CBData, REPO_FILE)

INF = math.inf


# ------------------------------------------------------------------ building
class Build:
    """one optimizer class interpreted up to the creation of its NLP solver"""

    def __init__(self, cls, P="sym", na="sym", S="sym", path=None):
        self.cls, self.key, self.path = cls, (cls, P, na, S), path or REPO_FILE
        self.it, self.cfg = setup(P, na, S, path)
        it = self.it
        top_frame(it)
        self.ocp = make_ocp(it, self.cfg)
        self.poly = poly_list(it, self.cfg)
        self.mp = it.instantiate(cls, [self.ocp, self.cfg.S, self.poly, "SCH"], {}, None)
        self.prob = self.bounds = None
        if cls == "mpopt_adaptive" and isinstance(self.mp, Ref):
            # user settable, per phase
            for n in ("lbh", "ubh", "tol_residual"):
                o = it.get(self.mp)
                if n in o.attrs:
                    v = fresh("p")
                    it.put(self.mp, o.set(n, it.new(ListVal([Comp(v, self.cfg.P, [Item(sym("user_" + n, tm.var0(v)))])]))))
            o = it.get(self.mp)
            if "mid_residuals" in o.attrs:
                it.put(self.mp, o.set("mid_residuals", sym("user_mid_residuals")))
        r = it.call(it.getattr(self.mp, "create_solver", None), [], {}, None)
        self.nlpsol = [e for e in it.events if e.kind == "nlpsol"]
        self.attrs = it.get(self.mp).attrs if isinstance(self.mp, Ref) else {}
        if self.nlpsol:
            a = self.nlpsol[-1].data["args"]
            self.prob = a[2] if len(a) > 2 else None
            self.options = a[3] if len(a) > 3 else None
        self.bounds = it.freeze(self.attrs.get("nlp_bounds"))

    def field(self, d, k):
        """entry of a dictionary, or None if it certainly lacks it"""
        d = resolve(d)
        if isinstance(d, Ref):
            d = self.it.get(d)
        if not isinstance(d, DictVal):
            raise Undecided("not a dictionary: %r" % (d,))
        pres, v = self.it.dict_get(d, k)
        p = int(ev(pres)) if isinstance(pres, T) else bool(pres)
        if not p:
            return None
        return v

    def keys(self, d):
        d = resolve(d)
        if not isinstance(d, DictVal) or d.ext:
            raise Undecided("dictionary")
        return set(w[2] for w in d.writes)


def numbers(v):
    """flat list of numbers of an array, scalar or list value"""
    v = resolve(v)
    if isinstance(v, (int, float)):
        return [v]
    if isinstance(v, T):
        return [tm.norm_num(ev(v))]
    if isinstance(v, Arr):
        return nums_arr(v)
    if isinstance(v, (ListVal, tuple)):
        return flat(num_of(v))
    if isinstance(v, Ref):
        raise Undecided("reference")
    raise Undecided("numbers of %r" % (v,))


def flat(x):
    if isinstance(x, tuple):
        return [z for y in x for z in flat(y)]
    return [x]


# ------------------------------------------------------------- specification
class Spec:
    """numbers the NLP must contain, under the active valuation"""

    def __init__(self, b, adaptive):
        it = b.it
        A = b.attrs
        self.b = b
        g = lambda n, *i: ev(sym(n, *[lift(x) for x in i]))
        self.g = g
        self.P = int(ev(b.cfg.P))
        self.na = int(ev(b.cfg.na))
        self.S = int(ev(b.cfg.S))
        self.nx, self.nu = int(g("nx")), int(g("nu"))
        self.p = [int(g("p", s)) for s in range(self.S)]
        self.N = sum(self.p) + 1
        self.adaptive = adaptive
        # node -> list of (segment, point); owner is the segment that closes at or after it
        self.start = [sum(self.p[:s]) for s in range(self.S)]
        self.read_symbols(A)
        self.t0s, self.t1s = g("tau0"), g("tau1")

    def read_symbols(self, A):
        it = self.b.it

        def arr(v, r, c):
            v = resolve(it.freeze(v))
            if not isinstance(v, Arr):
                raise Undecided("variable array %r" % (v,))
            v = ar.as_ca(v)
            d = [int(ev(s)) for s in v.shape]
            if d != [r, c]:
                raise Undecided("variable shape %r" % (d,))
            return [[ev(v.at(i, j)) for j in range(c)] for i in range(r)]

        def per_phase(v, r, c):
            v = resolve(it.freeze(v))
            l = it.as_list(v)
            out = [arr(l.get(lift(p)), r, c) for p in range(self.P)]
            return out
        self.X = per_phase(A["X"], self.N, self.nx)
        self.U = per_phase(A["U"], self.N, self.nu)
        self.A = arr(A["A"], self.na, self.P)
        self.T0 = [r[0] for r in arr(A["t0"], self.P, 1)]
        self.TF = [r[0] for r in arr(A["tf"], self.P, 1)]
        self.H = arr(A["seg_widths"], self.S, self.P)

    # -------------------------------------------------------------- quantities
    def sx(self, k):
        return self.g("scale_x", k)

    def su(self, k):
        return self.g("scale_u", k)

    def sa(self, k):
        return self.g("scale_a", k)

    def st(self):
        return self.g("scale_t")

    def h(self, s, p):
        return (self.TF[p] - self.T0[p]) / self.st() / (self.t1s - self.t0s) * self.H[s][p]

    def root(self, deg, i):
        return self.g("root", deg, i)

    def node_seg(self, i):
        """segment whose collocation equation the node belongs to, position in it"""
        for s in range(self.S):
            if i <= self.start[s] + self.p[s]:
                return s, i - self.start[s]

    def time_at(self, s, tau, p):
        dur = (self.TF[p] - self.T0[p]) / self.st()
        return (self.T0[p] / self.st() + dur * sum(self.H[k][p] for k in range(s))
                + dur * self.H[s][p] * (tau - self.t0s) / (self.t1s - self.t0s))

    def node_time(self, i, p):
        s, k = self.node_seg(i)
        return self.time_at(s, self.root(self.p[s], k), p)

    def opq(self, name, vals, idx):
        return tm.interp_opaque(name, tuple(idx), vals)

    def polyv(self):
        return tuple(self.p)

    def compD(self, i, j, order=1):
        return self.opq("compD", (self.polyv(), "SCH", order), (i, j))

    def mids(self):
        out = []
        for s in range(self.S):
            d = self.p[s]
            out.append(tuple((self.root(d, k) + self.root(d, k + 1)) / 2.0 for k in range(d)))
        return tuple(out)

    def compI(self, taus, i, j):
        return self.opq("compI", (self.polyv(), "SCH", taus, None), (i, j))

    def compID(self, taus, i, j, order=1):
        return self.opq("compID", (self.polyv(), "SCH", taus, order), (i, j))

    def a_of(self, p):
        return tuple(self.A[k][p] / self.sa(k) for k in range(self.na))

    def args_at(self, xs, us, t, p):
        a = (tuple(x / self.sx(k) for k, x in enumerate(xs)), tuple(u / self.su(k) for k, u in enumerate(us)), (t,))
        if self.na:
            a += (self.a_of(p),)
        return a

    def node_args(self, i, p):
        return self.args_at(self.X[p][i], self.U[p][i], self.node_time(i, p), p)

    def term_args(self, p):
        a = (tuple(x / self.sx(k) for k, x in enumerate(self.X[p][-1])), (self.TF[p] / self.st(),),
             tuple(x / self.sx(k) for k, x in enumerate(self.X[p][0])), (self.T0[p] / self.st(),))
        if self.na:
            a += (self.a_of(p),)
        return a

    def call(self, fam, p, args, k=None):
        self.calls.add((fam, p, args))
        return self.opq(fam, args, (p,) if k is None else (p, k))

    # -------------------------------------------------------------- families
    def build(self):
        """list of rows (property, family, phase, value, lb, ub) and objective"""
        self.calls = set()
        g = self.g
        rows = []
        J = 0
        catalog = []
        for p in range(self.P):
            n, nx, nu = self.N, self.nx, self.nu
            # dynamics
            for k in range(nx):
                for i in range(n):
                    s, q = self.node_seg(i)
                    dx = sum(self.compD(i, j) * self.X[p][j][k] for j in range(n))
                    f = self.h(s, p) * self.sx(k) * self.call("dyn", p, self.node_args(i, p), k)
                    rows.append(("C04", "dynamics", p, dx - f, 0, 0))
            # path constraints
            npc = int(g("npc", p))
            has = g("has_pc", p) == 1
            dest = rows if has else catalog
            calls = self.calls
            for i in range(n):
                if not has:
                    self.calls = set()
                for k in range(npc):
                    dest.append(("C05", "path", p, self.call("pc", p, self.node_args(i, p), k), -INF, 0))
                self.calls = calls
            has = g("has_tcon", p) == 1
            if not has:
                self.calls = set()
            for k in range(int(g("ntcon", p))):
                (rows if has else catalog).append(
                    ("C05", "terminal", p, self.call("tcon", p, self.term_args(p), k), 0, 0))
            self.calls = calls
            # slope
            du = rows if g("diff_u", p) else catalog
            for k in range(nu):
                for i in range(n):
                    v = sum(self.compD(i, j) * self.U[p][j][k] for j in range(n))
                    du.append(("C06", "slope limits", p, v, g("lbdu", p), g("ubdu", p)))
            # mid points
            mids = self.mids()
            m = sum(len(x) for x in mids)
            mid_on = True if self.adaptive else bool(g("midu", p))
            mu = rows if mid_on else catalog
            for k in range(nu):
                for i in range(m):
                    v = sum(self.compI(mids, i, j) * self.U[p][j][k] for j in range(n))
                    mu.append(("C11" if self.adaptive else "C06", "mid point controls", p, v,
                               g("lbu", p, k) * self.su(k), g("ubu", p, k) * self.su(k)))
            # slope continuity
            ends = tuple((self.t0s, self.t1s) for _ in range(self.S))
            dc = rows if g("du_continuity", p) else catalog
            if self.S > 1:
                for k in range(nu):
                    for s in range(self.S - 1):
                        v = sum((self.compID(ends, 2 * s + 1, j) - self.compID(ends, 2 * s + 2, j))
                                * self.U[p][j][k] for j in range(n))
                        dc.append(("C06", "slope continuity", p, v, 0, 0))
            if self.adaptive:
                rows.append(("C11", "sum of widths", p, sum(self.H[s][p] for s in range(self.S)) - 1, 0, 0))
                for k in range(nx):
                    for i in range(m):
                        v = sum(self.compI(mids, i, j) * self.X[p][j][k] for j in range(n))
                        rows.append(("C11", "mid point states", p, v,
                                     g("lbx", p, k) * self.sx(k), g("ubx", p, k) * self.sx(k)))
                tol = self.tol(p)
                r = 0
                mr = rows if self.mid_residuals() else catalog
                calls = self.calls
                if mr is catalog:
                    self.calls = set()
                for s in range(self.S):
                    for q in range(self.p[s]):
                        xs = [sum(self.compI(mids, r, j) * self.X[p][j][k] for j in range(n)) for k in range(nx)]
                        us = [sum(self.compI(mids, r, j) * self.U[p][j][k] for j in range(n)) for k in range(nu)]
                        t = self.time_at(s, mids[s][q], p)
                        args = self.args_at(xs, us, t, p)
                        for k in range(nx):
                            d = sum(self.compID(mids, r, j) * self.X[p][j][k] for j in range(n))
                            f = self.h(s, p) * self.sx(k) * self.call("dyn", p, args, k)
                            mr.append(("C11", "mid point residual", p, self.H[s][p] * (d - f), -tol, tol))
                        r += 1
                self.calls = calls
            # objective
            J += self.call("tc", p, self.term_args(p))
            for s in range(self.S):
                roots = tuple(self.root(self.p[s], k) for k in range(self.p[s] + 1))
                for q in range(self.p[s] + 1):
                    w = self.opq("quadW", ("SCH", roots, self.t0s, self.t1s), (q,))
                    J += w * self.h(s, p) * self.call("rc", p, self.node_args(self.start[s] + q, p))
        if self.P > 1:
            for l in range(int(g("nlinks"))):
                a, b = int(g("link_i", l)), int(g("link_j", l))
                for k in range(self.nx):
                    rows.append(("C08", "state link", l, self.X[b][0][k] - self.X[a][-1][k],
                                 g("lbe", l, k) * self.sx(k), g("ube", l, k) * self.sx(k)))
                for k in range(self.nu):
                    rows.append(("C08", "control link", l, self.U[b][0][k] - self.U[a][-1][k], 0, 0))
                rows.append(("C08", "time link", l, self.T0[b] - self.TF[a], 0, 0))
        return rows, catalog, J

    def per_phase_attr(self, name, p):
        return self.g("user_" + name, p)

    def tol(self, p):
        return self.per_phase_attr("tol_residual", p)

    def mid_residuals(self):
        return self.g("user_mid_residuals") != 0

    def variables(self):
        """value of each variable -> (name, lb, ub, start)"""
        g = self.g
        out = []
        for p in range(self.P):
            st = self.st()
            t00, tf0 = g("t00", p, 0), g("tf0", p, 0)
            for k in range(self.nx):
                for i in range(self.N):
                    lo, hi = g("lbx", p, k) * self.sx(k), g("ubx", p, k) * self.sx(k)
                    if p == 0 and i == 0:
                        lo = hi = g("x00", 0, k) * self.sx(k)
                    f = i / (self.N - 1.0)
                    z = (g("x00", p, k) * (1 - f) + g("xf0", p, k) * f) * self.sx(k)
                    out.append((self.X[p][i][k], "state %d of node %d, phase %d" % (k, i, p), lo, hi, z))
            for k in range(self.nu):
                for i in range(self.N):
                    f = i / (self.N - 1.0)
                    z = (g("u00", p, k) * (1 - f) + g("uf0", p, k) * f) * self.su(k)
                    out.append((self.U[p][i][k], "control %d of node %d, phase %d" % (k, i, p),
                                g("lbu", p, k) * self.su(k), g("ubu", p, k) * self.su(k), z))
            out.append((self.T0[p], "start time of phase %d" % p, g("lbt0", p, 0) * st, g("ubt0", p, 0) * st, t00 * st))
            out.append((self.TF[p], "end time of phase %d" % p, g("lbtf", p, 0) * st, g("ubtf", p, 0) * st, tf0 * st))
            for k in range(self.na):
                out.append((self.A[k][p], "parameter %d of phase %d" % (k, p), g("lba", p, k) * self.sa(k),
                            g("uba", p, k) * self.sa(k), g("a0", p, k) * self.sa(k)))
            if self.adaptive:
                for s in range(self.S):
                    out.append((self.H[s][p], "width of segment %d, phase %d" % (s, p),
                                self.per_phase_attr("lbh", p), self.per_phase_attr("ubh", p), 1.0 / self.S))
        return out


# ----------------------------------------------------------------- comparing
def close(a, b, tol=2e-5):
    if a == b:
        return True
    if a in (INF, -INF) or b in (INF, -INF) or a != a or b != b:
        return False
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))


def slacks(r):
    v, lo, hi = r
    a = tuple(sorted((v - lo, hi - v)))
    return a


def row_eq(a, b):
    x, y = slacks(a), slacks(b)
    return close(x[0], y[0]) and close(x[1], y[1])


def vacuous(r):
    return r[1] == -INF and r[2] == INF


def match_rows(exp, act):
    """exp: (prop, fam, phase, v, lb, ub); act: (v, lb, ub).  -> missing exp, extra act"""
    act = [a for a in act if not vacuous(a)]
    left = sorted(act, key=lambda r: slacks(r)[0])
    keys = [slacks(r)[0] for r in left]
    used = [False] * len(left)
    missing = []
    import bisect
    for e in exp:
        r = e[3:]
        if vacuous(r):
            continue
        s = slacks(r)
        i = bisect.bisect_left(keys, s[0] - 1e-3 * (1 + abs(s[0])))
        hit = False
        while i < len(left) and keys[i] <= s[0] + 1e-3 * (1 + abs(s[0])):
            if not used[i] and row_eq(r, left[i]):
                used[i] = hit = True
                break
            i += 1
        if not hit:
            missing.append(e)
    return missing, [left[i] for i in range(len(left)) if not used[i]]
