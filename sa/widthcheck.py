"""C24: refined segment widths stay a partition of each phase."""
import random, signal, traceback
from . import terms as tm
from .terms import ev, lift, sym, ONE, ZERO, TRUE, var0, fresh, t_eq, Undecided
from .values import *
from . import arrays as ar
from .harness import valuation, Cfg
from .nlpcheck import Sources
from .postcheck import PB, PSpec, vec
from .lib import Data, Subst
from .report import Report, SRC, pmap

METHODS = {"merge/split": ("residual", "merge_split"), "equal area": ("residual", "equal_area"),
           "default residual": ("residual", None), "control slope": ("control_slope", None),
           "default options": None, "no method": (None, None), "no solution": ("residual", "merge_split")}
CLS = "mpopt_h_adaptive"


def scene(path, name, P):
    b = PB(CLS, path, P, "sym")
    it = b.it
    for s in ("nT", "rn"):
        tm.MIN[s] = 0

    def hook(it, f, args, kw, node):
        a, c = fresh("q"), fresh("q")

        def res(p, s):
            # the first point decides that a segment without points has no residuals
            return gate(t_eq(sym("rn", p, s), ONE), None,
                        Arr("np", (sym("nT", p, s), sym("nx")), lambda k, j: sym("res", p, s, k, j)))

        def tt(p, s):
            return gate(t_eq(sym("rn", p, s), ONE), None, Arr("np", (sym("nT", p, s),), lambda k: sym("tt", p, s, k)))

        def nest(f):
            return it.new(ListVal([Comp(a, b.cfg.P, [Item(ListVal([Comp(c, b.cfg.S, [Item(f(var0(a), var0(c)))])]))])]))
        return ((nest(tt), nest(res)),)
    b.cfg.func_hooks[("mpopt", "get_dynamics_residuals")] = hook
    b.cfg.class_override[(CLS, "_THRESHOLD_SLOPE")] = sym("thr")

    def at_times(it, f, args, kw, node):
        # summary of the helper, itself checked in a scene of its own: positive fractions, sum one
        n = list(args) + [kw.get(x) for x in ("times", "n_segments", "t0", "tf")[len(args):]]
        if len(n) != 4 or any(x is None for x in n):
            return None
        ns, t0, tf = (ar.to_scalar(it.freeze(x)) for x in n[1:])
        return (Arr("np", (ns,), lambda i: sym("cw", t0, tf, ns, i)),)
    b.cfg.func_hooks[(CLS, "compute_segment_widths_at_times")] = at_times
    o = it.get(b.mp)
    for at, s in (("tol_residual", "tol"), ("lbh", "lbh"), ("ubh", "ubh")):
        v = fresh("q")
        o = o.set(at, it.new(ListVal([Comp(v, b.cfg.P, [Item(sym(s, var0(v)))])])))
    it.put(b.mp, o)
    m = METHODS[name]
    kw = {}
    if m is not None:
        d = []
        if m[0]:
            d.append(((), TRUE, "method", m[0]))
        if m[1]:
            d.append(((), TRUE, "sub_method", m[1]))
        kw["options"] = it.new(DictVal(d))
    before = dict(it.notes)
    it.called.clear()
    r = b.call(b.mp, "get_segment_width_parameters", [None if name == "no solution" else b.solution], kw)
    notes = {k: v for k, v in it.notes.items() if before.get(k) != v}
    return b, r, notes


def helper_scene(path, name, P):
    """the two static helpers of the control slope method on their own"""
    b = PB(CLS, path, 1, 0)
    it = b.it
    tm.MIN.update({"nt": 1, "nx": 1})
    before = dict(it.notes)
    it.called.clear()
    if name == "widths at times":
        T = Arr("np", (sym("nt"),), lambda i: sym("mt", i))
        r = b.call(b.mp, "compute_segment_widths_at_times", [T, b.cfg.S, sym("ht0"), sym("htf")])
    else:
        t = Arr("np", (sym("nt"),), lambda i: sym("mt", i))
        du = Arr("np", (sym("nt"), sym("nu")), lambda i, j: sym("du", i, j))
        grid = Arr("np", (sym("ng"),), lambda i: sym("gr", i))
        r = b.call(b.mp, "compute_time_at_max_values", [grid, t, du], {"threshold": sym("thr")})
    return b, r, {k: v for k, v in it.notes.items() if before.get(k) != v}


def helper_one(b, out, k, seed, name, rep, at):
    rng = random.Random("helper/%s/%s/%s" % (seed, k, name))
    S = [4, 3, 2, 5, 6, 4, 3][k % 7]
    nt = [2, 5, 1, 1, 3, 8, 3][k % 7]
    if name != "widths at times":
        nt += 2
    ts = [rng.uniform(1.05, 2.95) for _ in range(nt)]
    if name == "widths at times":
        if k % 2:
            ts.sort()
    else:
        ts.sort()
    nu = rng.choice([1, 2])
    du = [[rng.uniform(0, 1) for _ in range(nu)] for _ in range(nt)]
    thr = rng.choice([0.0, 0.4, 0.8])
    over = {"nt": nt, "mt": lambda i: ts[int(i)] if 0 <= i < nt else 0.0, "ht0": 1.0, "htf": 3.0, "thr": thr, "nu": nu,
            "du": lambda i, j: du[int(i)][int(j)] if 0 <= i < nt else 0.0, "ng": 3}
    e = valuation(seed=k + seed, P=1, na=0, nx=1, nu=nu, S=S, p=(1,) * S, over=over)
    e.memo = {}
    with tm.use_env(e):
        w, why = vec(out)
    if why:
        raise Undecided(why[0])
    rep.ob("results of the slope helpers compared", 1)
    if name == "widths at times":
        txt = "times %s in [1, 3], %d segments" % (rnd(ts), S)
        if len(w) != S:
            rep.add("C24", "one fraction per segment and phase", at, "%d fractions for %s" % (len(w), txt))
            return
        if not all(x > 0 for x in w):
            rep.add("C24", "fractions are positive", at, "%s for %s" % (rnd(w), txt))
        if abs(sum(w) - 1) > 1e-6:
            rep.add("C24", "fractions of a phase sum to one", at, "%s, sum %.6g, for %s" % (rnd(w), sum(w), txt))
        edges = [1 + 2 * sum(w[:i + 1]) for i in range(S - 1)]
        if nt > S - 2:
            lost = [x for x in edges if min(abs(x - t) for t in ts) > 1e-6]
        else:
            lost = [t for t in ts if min(abs(x - t) for x in edges) > 1e-6]
        if lost:
            rep.add("C24", "segments are cut at the given times", at, "%s not a cut, widths %s, %s" % (rnd(lost), rnd(w), txt))
    else:
        txt = "times %s, threshold %g" % (rnd(ts), thr)
        ok = [t for t, d in list(zip(ts, du))[1:-1] if sum(x * x for x in d) ** 0.5 >= thr]
        if len(set(rnd9(w))) != len(w) or any(min([abs(x - t) for t in ok] or [1]) > 1e-6 for x in w):
            rep.add("C24", "cut times are interior nodes above the slope threshold", at, "%s, candidates %s, %s" % (
                rnd(w), rnd(ok), txt))


HELPERS = ("widths at times", "times of steep controls")


class Sizes:
    def __init__(self, seed, k, P, name):
        rng = random.Random("width/%s/%s/%s" % (seed, k, name))
        self.P = 1 if P == 1 else rng.choice([2, 2, 3])
        self.S = [4, 2, 5, 1, 3, 6, 3, 4][k % 8]
        self.p = tuple(rng.choice([1, 2, 3]) for _ in range(self.S))
        self.nx, self.nu, self.na = rng.choice([1, 2]), rng.choice([1, 2]), rng.choice([1, 2])
        self.tol = [rng.choice([1e-3, 0.05, 1.0, 20.0]) * rng.uniform(0.8, 1.2) for _ in range(self.P)]
        self.within = [rng.random() < 0.3 for _ in range(self.P)]
        if self.P > 1:
            self.within[rng.randrange(self.P)] = True
        self.within[rng.randrange(self.P)] = False
        self.seeds = [rng.random() for _ in range(self.P)]
        self.trail = [rng.random() < 0.6 for _ in range(self.P)]
        self.lb = [rng.choice([0.05, 0.12]) for _ in range(self.P)]
        self.ub = [rng.choice([0.3, 0.2]) for _ in range(self.P)]
        self.k = k

    def text(self):
        return "%d phases, %d segments, degrees %s" % (self.P, self.S, self.p)


def env_for(z, seeds, P):
    """valuation of one scene; data of a phase depend on its own seed only"""
    def rng(p, *what):
        return random.Random("%r/%r" % (seeds[p], what))
    rn = {}
    for p in range(z.P):
        if rng(p, "trail").random() < 0.5 and z.S > 1:
            rn[(p, z.S - 1)] = 1
        if rng(p, "mid").random() < 0.3 and z.S > 2:
            rn[(p, 1)] = 1
    loud = {p: rng(p, "loud").choice([s for s in range(z.S) if not rn.get((p, s))]) for p in range(z.P)}

    quiet = {}
    for p in range(z.P):
        # runs of segments within tolerance between segments above it
        r = rng(p, "runs")
        s, low = 0, r.random() < 0.5
        while s < z.S:
            n = r.choice([1, 2, 2, 3])
            for q in range(s, min(s + n, z.S)):
                quiet[(p, q)] = low and q != loud[p]
            s, low = s + n, not low

    def res(p, s, k, j):
        p, s, k, j = int(p), int(s), int(k), int(j)
        r = rng(p, "res", s, k, j)
        x = r.uniform(0.5, 0.9) * (1 if r.random() < 0.5 else -1)
        amp = 0.5 if z.within[p] else (0.2 if quiet[(p, s)] else 6.0 if s == loud[p] else 3.0)
        return x * amp * z.tol[p]
    w = []
    for p in range(z.P):
        x = [rng(p, "w", s).uniform(0.3, 2) for s in range(z.S)]
        w += [y / sum(x) for y in x]
    over = {"res": res, "rn": lambda p, s: rn.get((int(p), int(s)), 0),
            "nT": lambda p, s: rng(int(p), "nT", int(s)).choice([1, 2, 3]),
            "tol": lambda p: z.tol[int(p)], "lbh": lambda p: z.lb[int(p)], "ubh": lambda p: z.ub[int(p)],
            "sw": lambda i: w[int(i)], "nd": 1, "pd": lambda i: 0, "gt": lambda i: 0, "maxg": 3, "nint": 3,
            "thr": 1e-12}
    e = valuation(seed=int(z.seeds[0] * 1e6), P=z.P, na=z.na, nx=z.nx, nu=z.nu, S=z.S, p=z.p, over=over)
    e.widths, e.res, e.rn, e.loud = w, res, rn, loud
    return e


def place(b, z, e, seeds):
    """solution values: increasing times, entries of a phase from its own seed"""
    e.fixed["sol"] = lambda i: i
    with tm.use_env(e):
        s = PSpec(b, e)
        st = s.st()
    e.cache.clear()
    pos = {}
    e.times = []
    for p in range(z.P):
        r = random.Random("%r/sol" % (seeds[p],))
        for row in s.X[p] + s.U[p]:
            for c in row:
                pos[int(round(c))] = r.uniform(-2, 2)
        t0 = r.uniform(0.1, 2)
        pos[int(round(s.T0[p]))] = t0
        tf = t0 + r.uniform(1, 3)
        pos[int(round(s.TF[p]))] = tf
        e.times.append((t0 / st, tf / st))
    e.fixed["sol"] = lambda i: pos.get(int(i), 0.7)
    return e


def biggest(z, e, p):
    m = 0.0
    for s in range(z.S):
        if e.rn.get((p, s)):
            continue
        for k in range(int(e.fixed["nT"](p, s))):
            for j in range(z.nx):
                m = max(m, abs(e.res(p, s, k, j)))
    return m


def job(j):
    name, seed, nval, path, P = j
    import sys
    sys.setrecursionlimit(20000)
    rep = Report()
    tag = "refinement (%s)" % name
    signal.signal(signal.SIGALRM, stop)
    signal.alarm(300 if nval < 10 else 1500)
    try:
        if name in HELPERS:
            b, r, notes = helper_scene(path, name, P)
            rep.analysed |= set(b.it.called)
            at = "mpopt_h_adaptive.%s" % ("compute_segment_widths_at_times" if name == HELPERS[0]
                                          else "compute_time_at_max_values")
            for (line, why), n in notes.items():
                rep.undec("%s line %s" % (tag, line), why)
            for k in range(nval + 2):
                try:
                    helper_one(b, resolve(r), k, seed, name, rep, at)
                except Undecided as ex:
                    rep.undec(tag, ex)
            return rep
        b, r, notes = scene(path, name, P)
        rep.analysed |= set(b.it.called)
        src = Sources(path)
        fns = [f for f in b.it.called if "segment" in f or "seg_width" in f or "equal_area" in f]
        at = "%s: %s" % (name, ", ".join(sorted(set(fns))) or "get_segment_width_parameters")
        for (line, why), n in notes.items():
            rep.undec("%s line %s" % (tag, line), why)
        out = resolve(r)
        if not isinstance(out, tuple) or len(out) != 2:
            rep.undec(tag, "result %r" % (out,))
            return rep
        if name == "merge/split":
            nval *= 4
        for k in range(nval):
            z = Sizes(seed, k, P, name)
            try:
                one(b, out, z, name, at, rep)
            except Undecided as ex:
                rep.undec(tag, ex)
    except Undecided as ex:
        rep.undec(tag, ex)
    except Exception:
        rep.undec(tag, "analysis stopped: " + traceback.format_exc(limit=-3))
    finally:
        signal.alarm(0)
    return rep


def stop(*a):
    raise Undecided("out of time")


def widths_of(b, out, z, seeds, P):
    e = place(b, z, env_for(z, seeds, P), seeds)
    calls = e.calls = set()

    def cw(t0, tf, n, i):
        # fractions as the helper returns them, from the interval it was given
        calls.add((round(float(t0), 9), round(float(tf), 9), int(n)))
        r = random.Random("cw/%.9f/%.9f" % (t0, tf))
        x = [r.choice([0.02, 0.3, 1.0, 2.0]) * r.uniform(0.8, 1.2) for _ in range(int(n))]
        return x[int(i)] / sum(x)
    e.fixed["cw"] = cw
    e.memo = {}
    with tm.use_env(e):
        w, why = vec(out[0])
        m = resolve(out[1])
        while isinstance(m, LazyV):
            m = resolve(m.force())
        if m is not None:
            m = ev(ar.to_scalar(m))
    if why:
        if "scalar of None" in why[0]:
            return e, [None if x != x else x for x in w], m
        raise Undecided(why[0])
    return e, w, m


def one(b, out, z, name, at, rep):
    P, S = z.P, z.S
    e, w, m = widths_of(b, out, z, z.seeds, b.P)
    txt = " [%s]" % z.text()

    def bad(rule, detail):
        rep.add("C24", rule, at, detail + txt)
    rep.ob("refined width vectors compared", 1)
    if None in w:
        bad("one fraction per segment and phase", "entries %s are never filled" % [i for i, x in enumerate(w) if x is None])
        return
    if len(w) != P * S:
        bad("one fraction per segment and phase", "%d fractions" % len(w))
        return
    parts = [w[p * S:(p + 1) * S] for p in range(P)]
    refines = METHODS[name] is None or METHODS[name][0] is not None
    refines = refines and name != "no solution" and S > 1
    for p in range(P):
        q = parts[p]
        old = e.widths[p * S:(p + 1) * S]
        rep.ob("phases compared", 1)
        if not all(x > 0 for x in q):
            bad("fractions are positive", "phase %d: %s" % (p, rnd(q)))
        if abs(sum(q) - 1) > 1e-6:
            bad("fractions of a phase sum to one", "phase %d: %s, sum %.6g" % (p, rnd(q), sum(q)))
        if not refines:
            continue
        if biggest(z, e, p) < z.tol[p]:
            if not all(abs(x - y) < 1e-9 for x, y in zip(q, old)):
                bad("phase within its tolerance keeps its widths", "phase %d: %s, before %s" % (p, rnd(q), rnd(old)))
            continue
        if name == "control slope":
            for c in e.calls:
                if c[2] != S or not any(abs(c[0] - a) < 1e-6 and abs(c[1] - d) < 1e-6 for a, d in e.times):
                    bad("widths of a phase come from its own data", "cuts for %d segments in [%g, %g], phases are %s" % (
                        c[2], c[0], c[1], e.times))
            if any(abs(x - y) > 1e-9 for x, y in zip(q, old)):
                if max(q) / min(q) > z.ub[p] / z.lb[p] * (1 + 1e-6):
                    bad("limits applied before the final normalisation", "phase %d: widths %s outside the limits "
                        "[%g, %g] of the phase" % (p, rnd(q), z.lb[p], z.ub[p]))
        if name == "merge/split":
            runs(z, e, p, q, old, bad)
    if refines and m is not None:
        want = max(biggest(z, e, p) for p in range(P))
        if abs(m - want) > 1e-6 * max(1, want):
            bad("reported error is the largest residual of all phases", "%.6g, largest residual %.6g" % (m, want))
    # the data of other phases must not matter
    if P > 1 and refines:
        for p in range(P):
            seeds = [s if q == p else s + 1 for q, s in enumerate(z.seeds)]
            e2, w2, m2 = widths_of(b, out, z, seeds, b.P)
            rep.ob("phases compared under changes of the other phases", 1)
            q = w2[p * S:(p + 1) * S]
            if len(w2) == len(w) and None not in w2 and not all(abs(x - y) < 1e-9 for x, y in zip(q, parts[p])):
                bad("widths of a phase come from its own data", "phase %d: %s, with other data in the other phases %s" % (
                    p, rnd(parts[p]), rnd(q)))


def runs(z, e, p, q, old, bad):
    """merge/split keeps the boundaries between runs of segments meeting the tolerance and the others"""
    S = z.S

    def worst(s):
        if e.rn.get((p, s)):
            return 0.0
        return max(abs(e.res(p, s, k, j)) for k in range(int(e.fixed["nT"](p, s))) for j in range(z.nx))
    ok = [worst(s) < z.tol[p] for s in range(S)]
    cuts, edges = [], []
    a = 0.0
    for s in range(S):
        a += old[s]
        if s < S - 1 and ok[s] != ok[s + 1]:
            cuts.append(a)
    a = 0.0
    for s in range(S):
        a += q[s]
        edges.append(a)
    for c in cuts:
        if min(abs(c - x) for x in edges) > 1e-6:
            bad("merging and splitting keeps the boundaries of merged runs", "phase %d: boundary %.4g lost, widths %s, before "
                "%s" % (p, c, rnd(q), rnd(old)))
            return


def rnd9(x):
    return [round(y, 7) for y in x]


def rnd(x):
    return [float("%.4g" % y) for y in x]


def run(seed, tier, path=SRC, prop=None):
    nval = 5 if tier == "quick" else 24
    rep = Report()
    jobs = [(m, seed, nval, path, "sym") for m in METHODS]
    jobs += [(m, seed, nval, path, 1) for m in list(METHODS) + list(HELPERS)]
    for r in pmap(job, jobs, rep):
        rep.merge(r)
    rep.rules = ["each phase has one positive fraction per segment and they sum to one", "a phase depends on its own "
                 "residuals, tolerance, limits, times and previous widths only", "a phase within its own tolerance is unchanged",
                 "ratio of widths within the ratio of the limits", "the reported error is the largest residual"]
    return rep
