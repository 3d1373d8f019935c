"""C12: composite operators act segment by segment."""
import random, traceback
from . import terms as tm
from .terms import ev, lift, sym, ONE, ZERO, var0, fresh, Undecided
from .values import *
from .harness import Cfg, setup, top_frame, poly_list, valuation
from .nlpcheck import numvec, close, reachable
from .lib import Data
from .report import Report, SRC, pmap
from .sizes import pick


def other_list(it, cfg):
    v = fresh("s")
    return it.new(ListVal([Comp(v, sym("S2"), [Item(sym("p2", var0(v)))])]))


def taus_list(it, n):
    v = fresh("s")

    def pts(x):
        return Arr("np", (sym("nT", x),), lambda k: sym("tau", x, k))
    return it.new(ListVal([Comp(v, n, [Item(pts(var0(v)))])]))


CASES = [
    # name, method, own orders?, derivative order, points?
    ("differentiation", "get_composite_differentiation_matrix", True, 1, False),
    ("differentiation, given orders", "get_composite_differentiation_matrix", False, 1, False),
    ("second differentiation", "get_composite_differentiation_matrix", True, 2, False),
    ("interpolation", "get_composite_interpolation_matrix", True, None, True),
    ("interpolation, given orders", "get_composite_interpolation_matrix", False, None, True),
    ("point-wise differentiation", "get_composite_interpolation_Dmatrix_at", True, 1, True),
    ("point-wise second differentiation, given orders", "get_composite_interpolation_Dmatrix_at", False, 2, True),
    ("quadrature", "get_composite_quadrature_weights", True, None, False),
    ("quadrature, given orders and limits", "get_composite_quadrature_weights", False, None, False),
]


def hist_points(s):
    return Arr("np", (sym("nT3", s),), lambda k: sym("tau3", s, k))


def run_case(job):
    case, seed, nval, path, hist = job
    nval = max(3, nval // 3) if hist == "object" else nval
    import sys
    sys.setrecursionlimit(20000)
    rep = Report()
    name, meth, own, order, pts = case
    try:
        cfg = Cfg(composite=True)
        it, cfg = setup(path=path, cfg=cfg)
        top_frame(it)
        tm.MIN["nT"] = 0
        it.mod.overrides = getattr(it.mod, "overrides", {})
        c = it.instantiate("Collocation", [poly_list(it, cfg), "SCH"], {}, None)
        args, kw = [], {}
        n = cfg.S if own else sym("S2")
        if pts:
            args.append(taus_list(it, n))
        if not own:
            kw["poly_orders"] = other_list(it, cfg)
        if order == 2:
            kw["order"] = lift(2)
        lim = "limits" in name
        if lim:
            kw["tau0"], kw["tau1"] = sym("T0"), sym("T1")
        if hist == "object":
            # nor one of another object, with another scheme
            rec, it.recording = it.recording, False
            cfg.old_scheme = True
            c0 = it.instantiate("Collocation", [poly_list(it, cfg), "OLD"], {}, None)
            it.call(it.getattr(c0, meth, None), list(args), dict(kw), None)
            cfg.old_scheme = False
            c = it.instantiate("Collocation", [poly_list(it, cfg), "SCH"], {}, None)
            it.recording = rec
        elif hist:
            # an earlier query for other orders and other points must not show in this one
            hq, hr = fresh("s"), fresh("s")
            a0, k0 = [], {"poly_orders": it.new(ListVal([Comp(hq, sym("S3"), [Item(sym("p3", var0(hq)))])]))}
            if pts:
                a0.append(it.new(ListVal([Comp(hr, sym("S3"), [Item(hist_points(var0(hr)))])])))
            if lim:
                k0["tau0"], k0["tau1"] = sym("T2"), sym("T3")
            if order == 2:
                k0["order"] = ONE
            rec, it.recording = it.recording, False
            it.call(it.getattr(c, meth, None), a0, k0, None)
            it.recording = rec
        r = it.call(it.getattr(c, meth, None), args, kw, None)
        rep.analysed |= set(it.called)
        for (line, why), k in it.notes.items():
            rep.undec("%s line %s" % (name, line), why)
        obj = it.get(c).attrs
        for k in range(nval):
            rng = random.Random("%s/%s/%s" % (seed, k, name))
            S = pick(rng, [1, 2, 3, 4], path)
            p = [pick(rng, [1, 2, 3], path, .1) for _ in range(S)]
            S2 = pick(rng, [1, 2, 3], path)
            p2 = [pick(rng, [1, 2, 4], path, .1) for _ in range(S2)]
            nT = [pick(rng, [0, 1, 2, 3], path, .1) for _ in range(max(S, S2, 5))]
            if sum(nT[:S if own else S2]) == 0:
                nT[0] = 2
            over = {"S3": 2, "p3": lambda s: int(s) + 1, "nT3": lambda s: 2, "S2": S2, "p2": lambda s: p2[int(s)], "nT": lambda s: nT[int(s)]}
            shape = k % 4
            if shape in (1, 3):
                # segments of one order with equally many points that differ
                p, p2 = [p[0]] * S, [p2[0]] * S2
                nT = [3 if shape == 1 else 4] * len(nT)
            if shape == 1:      # same sum
                over["tau"] = lambda s, j: (int(j) - 1) * 0.3 / (1 + int(s))
            if shape == 3:      # same ends
                over["tau"] = lambda s, j: (0.1, 0.2 + 0.07 * int(s), 0.5 + 0.03 * int(s) ** 2, 0.9)[int(j)] \
                    if int(j) < 4 else 1.0
            e = valuation(seed * 77 + k, S=S, p=p, over=over)
            with tm.use_env(e):
                try:
                    compare(name, meth, it, obj, r, p if own else p2, nT, order, pts, lim, rep)
                except Undecided as ex:
                    rep.undec(name, ex)
                for ev_ in it.events:
                    if ev_.kind in ("typeerror",) and reachable(ev_):
                        rep.add("C12", "%s cannot be computed" % name, "%s line %d" % ev_.where, ev_.data["what"])
    except Undecided as ex:
        rep.undec(name, ex)
    except Exception:
        rep.undec(name, "analysis stopped: " + traceback.format_exc(limit=-3))
    return rep


def compare(name, meth, it, obj, r, p, nT, order, pts, lim, rep):
    r = resolve(it.freeze(r))
    if isinstance(r, Arr) and r.ndim == 2:
        shape = tuple(int(ev(s)) for s in r.shape)
        val = lambda i, j: ev(r.at(lift(i), lift(j)))
    else:
        rep.undec(name, "result %r" % (r,))
        return
    start = [sum(p[:s]) for s in range(len(p) + 1)]
    n = start[-1] + 1
    opq = lambda nm, vals, idx: tm.interp_opaque(nm, tuple(idx), vals)
    root = lambda d: tuple(sroot(it, obj, d, i) for i in range(d + 1))
    exp = {}
    if "quadrature" in meth:
        t0 = ev(sym("T0")) if lim else num(obj["tau0"])
        t1 = ev(sym("T1")) if lim else num(obj["tau1"])
        want = []
        for s, d in enumerate(p):
            want += [opq("segW", (d, t0, t1), (i,)) for i in range(d + 1)]
        rep.ob("quadrature weights compared", len(want))
        flatn = shape[0] * shape[1]
        if flatn != len(want):
            rep.add("C12", "%s: number of weights" % name, "Collocation." + meth, "%d weights, required %d for orders %s"
                    % (flatn, len(want), p))
            return
        got, why = numvec(r)
        for w in why:
            rep.undec(name, w)
        for k, (a, b) in enumerate(zip(got, want)):
            if a == a and not close(a, b):
                rep.add("C12", "%s: weight of a node" % name, "Collocation." + meth, "weight %d differs for orders %s"
                        % (k, p))
                return
        return
    rows = []
    for s, d in enumerate(p):
        if pts:
            tau = tuple(ev(sym("tau", lift(s), lift(k))) for k in range(nT[s]))
            data = (d, tau, order) if order else (d, tau)
            for k in range(nT[s]):
                rows.append((s, d, data, k))
        else:
            for k in range(0 if s == 0 else 1, d + 1):
                rows.append((s, d, None, k))
    if shape != (len(rows), n):
        rep.add("C12", "%s: size" % name, "Collocation." + meth, "%dx%d, required %dx%d for orders %s" % (
            shape + (len(rows), n, p)))
        return
    rep.ob("operator entries compared", len(rows) * n)
    for i, (s, d, data, k) in enumerate(rows):
        if data is None:
            data = (d, root(d), order)
        for j in range(n):
            inside = start[s] <= j <= start[s] + d
            want = opq("segI" if meth == "get_composite_interpolation_matrix" else "segD", data,
                       (k, j - start[s])) if inside else 0
            try:
                got = val(i, j)
            except Undecided as ex:
                rep.undec(name, ex)
                continue
            if not close(got, want):
                rep.add("C12", "%s: %s" % (name, "entry of a segment" if inside else "entry outside the segment"),
                        "Collocation." + meth, "row %d column %d differs for orders %s" % (i, j, p))
                return


def num(v):
    v = resolve(v)
    return ev(v) if isinstance(v, tm.T) else v


def sroot(it, obj, d, i):
    return tm.CUR.sym("root", (d, i))


def run(seed, tier, path=SRC, prop=None):
    nval = 14 if tier == "quick" else 40
    rep = Report()
    for r in pmap(run_case, [(c, seed, nval, path, h) for c in CASES for h in (False, True, "object")], rep):
        rep.merge(r)
    rep.rules = ["entry (row, column) of a composite operator is the segment operator's entry for the row's own "
                 "segment, or zero; the quadrature row is the concatenation of the segments' weights"]
    return rep
