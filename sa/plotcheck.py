"""C32: plots show the requested data, with their labels, on the caller's axes."""
import random
from . import terms as tm
from .terms import T, ev, lift, sym, ONE, ZERO, TRUE, FALSE, var0, fresh, t_eq, Undecided
from .values import *
from . import arrays as ar
from .nlpcheck import numvec, close
from .postcheck import PB, env_for
from .harness import Cfg, setup, top_frame, valuation
from .interp import ExtStr
from .report import Report, SRC, pmap

P = "C32"


class AxV(Model):
    cls = "Axes"

    def __init__(self, tag, i=ZERO):
        self.tag, self.i = tag, lift(i)

    def subst(self, v, t):
        return AxV(self.tag, self.i.subst(v, t))

    def getattr(self, it, name, node):
        return AxM(self, name)

    def ident(self):
        return (self.tag, int(ev(self.i)))


class FigV(Model):
    cls = "Figure"

    def __init__(self, tag):
        self.tag = tag

    def getattr(self, it, name, node):
        return TopV("figure." + name)


class AxM(Model):
    def __init__(self, ax, name):
        self.ax, self.name = ax, name

    def subst(self, v, t):
        return AxM(self.ax.subst(v, t), self.name)

    def call(self, it, args, kw, node):
        it.event("plt", node, what=self.name, ax=self.ax, args=tuple(args), kw=DictVal([((), TRUE, k, v) for k, v in kw.items()]))
        if it.recording:
            it.plotted.append((self.name, self.ax, [it.freeze(a) for a in args], {k: it.freeze(v) for k, v in kw.items()},
                               list(tm.FACTS), list(it.loops), it.where(node)))
        return TopV("ax." + self.name)


def install(cfg):
    cfg.nplot = 0

    def plt(it, name, args, kw, node):
        n = name.split(".")[-1]
        cfg.nplot += 1
        tag = "%s%d" % (n, cfg.nplot)
        if n == "subplots":
            a = [lift(x) if not isinstance(x, T) else x for x in args]
            rows = resolve(kw.get("nrows", a[0] if a else ONE))
            cols = resolve(kw.get("ncols", a[1] if len(a) > 1 else ONE))
            m = lift(rows) * lift(cols)
            v = fresh("ax")
            many = ListVal([Comp(v, m, [Item(AxV(tag, var0(v)))])])
            cfg.made.append((tag, lift(rows), lift(cols), list(tm.FACTS)))
            return (FigV(tag), gate(t_eq(m, ONE), AxV(tag, ZERO), many))
        if n == "subplot":
            return AxV(tag + repr([str(a) for a in args]))
        if n in ("figure", "gcf"):
            return FigV(tag)
        if n == "gca":
            return AxV(tag)
        return TopV(name)
    cfg.made = []
    cfg.plt = plt


def expand(p):
    """the occurrences of one recorded call under the valuation: (call, bindings evaluated by f)"""
    what, ax, args, kw, facts, loops, where = p
    env = tm.CUR
    saved = dict(env.bind)
    out = []

    def go(k):
        if k == len(loops):
            if all(bool(ev(c)) == bool(v) for c, v in facts):
                out.append(curve(what, ax, args, kw, where))
            return
        v, n = loops[k]
        for j in range(int(ev(n))):
            env.bind[v] = j
            go(k + 1)
    try:
        go(0)
    finally:
        env.bind.clear()
        env.bind.update(saved)
    return out


def pick(v):
    v = resolve(v)
    while isinstance(v, Gated):
        v = resolve(v.a if bool(ev(v.c)) else v.b)
    return v


def text(v):
    v = pick(v)
    if v is None:
        return None
    if isinstance(v, StrT):
        return "".join(text(q) for q in v.parts)
    if isinstance(v, str):
        return v
    if isinstance(v, ExtStr):
        return "<%s>" % v.name
    if isinstance(v, T):
        x = ev(v)
        return "%d" % x if isinstance(x, (int, float)) and abs(x - round(x)) < 1e-9 else str(x)
    if isinstance(v, (ListVal, tuple)):
        raise Undecided("list as text")
    raise Undecided("text of %r" % type(v).__name__)


def nums(v):
    v = pick(v)
    r, why = numvec(v)
    if r is None or (why and len(why)):
        raise Undecided("numbers: %s" % (why,))
    return [x for x in r]


def curve(what, ax, args, kw, where):
    ax = pick(ax)
    if not isinstance(ax, AxV):
        raise Undecided("axes not known")
    if what == "plot":
        if len(args) < 2:
            raise Undecided("plot with one argument")
        return ("plot", ax.ident(), nums(args[0]), nums(args[1]), text(kw["label"]) if "label" in kw else None, where)
    if what == "set":
        return ("set", ax.ident(), {k: text(v) for k, v in kw.items()}, where)
    if what in ("set_xlabel", "set_ylabel"):
        return ("set", ax.ident(), {what[4:]: text(args[0])}, where)
    return (what, ax.ident(), where)


class Drawn:
    """what a call drew, under the active valuation"""

    def __init__(self, plotted):
        self.curves, self.labels, self.why = [], {}, None
        try:
            for p in plotted:
                if p[0] not in ("plot", "set", "set_xlabel", "set_ylabel", "legend"):
                    continue
                for c in expand(p):
                    if c[0] == "plot":
                        self.curves.append(c[1:])
                    elif c[0] == "set":
                        self.labels.setdefault(c[1], {}).update({k: v for k, v in c[2].items()})
        except (Undecided, KeyError, AttributeError, TypeError) as e:
            self.why = "%s: %s" % (type(e).__name__, e)


def same_numbers(a, b):
    return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))


def match(want, got):
    """each wanted curve (axes, t, y, label or ANY) drawn, and nothing else; returns a message or None"""
    left = list(got)
    for ax, t, y, lab in want:
        hit = None
        for c in left:
            if (ax is ANY or c[0] == ax) and same_numbers(c[1], t) and same_numbers(c[2], y) and (lab is ANY or c[3] == lab):
                hit = c
                break
        if hit is None:
            near = [c for c in left if same_numbers(c[1], t) and same_numbers(c[2], y)]
            if near:
                return "a curve is drawn on axes %s labelled %r instead of %s labelled %r" % (near[0][0], near[0][3], ax, lab)
            return "a requested curve is not drawn (axes %s, label %s)" % (ax, lab)
        left.remove(hit)
    if left:
        return "a curve nobody asked for is drawn (axes %s, label %r, %s line %d)" % (left[0][0], left[0][3], *left[0][4])
    return None


class _Any:
    def __repr__(self):
        return "any"


ANY = _Any()


def scene(it, f):
    """the drawing calls made by f and its result"""
    it.plotted = []
    r = f()
    return it.plotted, it.freeze(r)


def symarr(name, *shape):
    return Arr("np", shape, lambda *i: sym(name, *i))


def column(a, d):
    a = pick(a)
    return [ev(a.at(lift(k), lift(d))) for k in range(int(ev(a.shape[0])))]


def vec(a):
    a = pick(a)
    if len(a.shape) == 1:
        return [ev(a.at(lift(k))) for k in range(int(ev(a.shape[0])))]
    return column(a, 0)


def fresh_it(path):
    cfg = Cfg("sym", "sym")
    install(cfg)
    it, cfg = setup(path=path, cfg=cfg)
    it.plotted = []
    top_frame(it)
    tm.MIN.update({"N": 1, "D": 1, "D2": 1, "ng": 2, "dims": 0})
    return it, cfg


def attr(it, cls, name):
    return it.getattr(ClassVal(cls), name, None)


def axes2(it, tag="mine"):
    v = fresh("q")
    return ListVal([Item(AxV(tag, ZERO)), Item(AxV(tag, ONE))])


def valu(seed, k):
    rng = random.Random("plot/%s/%s" % (seed, k))
    N, D, C = rng.choice([2, 3]), rng.choice([1, 2, 3]), rng.choice([3, 4])
    dims = [rng.randrange(C) for _ in range(6)]
    if k == 0:
        D, dims[0], dims[1] = 2, 2, 0
    e = valuation(seed=seed * 31 + k, P=2, na=1, nx=C, nu=rng.choice([1, 2, 3]), S=2, p=(1, 2),
                  over={"N": N, "C": C, "D": D, "D2": rng.choice([1, 2]), "ng": rng.choice([2, 3]),
                        "dims": lambda i: dims[int(i)], "gd": lambda g, i: dims[(2 * int(g) + int(i)) % 6]})
    return e


def single(seed, path, nval, rep):
    """plot_curve and plot_single_variable on symbolic data"""
    N, C = sym("N"), sym("C")
    for kind in ("flat", "one", "groups"):
        for axis in (0, 1):
            for given in (False, True):
                it, cfg = fresh_it(path)
                x, t = symarr("data", N, C), symarr("time", N)
                v, w = fresh("q"), fresh("q")
                flatdims = ListVal([Comp(v, sym("D"), [Item(sym("dims", var0(v)))])])
                if kind == "flat":
                    dims = it.new(flatdims)
                    n = ONE
                elif kind == "one":
                    dims = it.new(ListVal([Item(flatdims)]))
                    n = ONE
                else:
                    dims = it.new(ListVal([Comp(v, sym("ng"), [Item(ListVal([Comp(w, sym("D"), [Item(sym("gd", var0(v), var0(w)))])]))])]))
                    n = sym("ng")
                kw = {"name": "state", "ylabel": "Y", "axis": lift(axis)}
                if given:
                    g = fresh("ax")
                    kw["fig"] = FigV("mine")
                    kw["axs"] = AxV("mine", ZERO) if n is ONE else it.new(ListVal([Comp(g, n, [Item(AxV("mine", var0(g)))])]))
                where = "post_process.plot_single_variable(%s dims, axis %d%s)" % (kind, axis, ", axes given" if given else "")
                rep.analysed.add("post_process.plot_single_variable")
                rep.analysed.add("post_process.plot_curve")
                try:
                    plotted, r = scene(it, lambda: it.call(attr(it, "post_process", "plot_single_variable"), [x, t, dims], kw, None))
                except Exception as e:
                    rep.undec(where, "%s: %s" % (type(e).__name__, e))
                    continue
                for k in range(nval):
                    e = valu(seed, k)
                    with tm.use_env(e):
                        D = int(ev(sym("D")))
                        ng = 1 if n is ONE else int(ev(n))
                        want = []
                        tt = vec(t)
                        tag = "mine" if given else (cfg.made[0][0] if len(cfg.made) == 1 else ANY)
                        for g in range(ng):
                            for i in range(D):
                                d = int(ev(sym("dims", lift(i)) if n is ONE else sym("gd", lift(g), lift(i))))
                                want.append(((tag, g) if tag is not ANY else ANY, tt, column(x, d), "state %d" % d))
                        dr = Drawn(plotted)
                        if not judge(rep, where, dr, want, e):
                            break
                        if not returned(rep, where, r, given, n):
                            break
                        for g in range(ng):
                            if tag is not ANY and (tag, g) in dr.labels and dr.labels[(tag, g)].get("ylabel", "Y") != "Y":
                                rep.add(P, "axes carry the caller's label", where, "ylabel %r" % dr.labels[(tag, g)]["ylabel"])
                        if not given and len(cfg.made) == 1:
                            rows, cols = int(ev(cfg.made[0][1])), int(ev(cfg.made[0][2]))
                            rep.ob("subplot layouts", 1)
                            if (rows, cols) != ((ng, 1) if axis == 1 else (1, ng)):
                                rep.add(P, "one subplot per group, stacked as asked", where, "%d x %d subplots for %d groups" % (rows, cols, ng))


def judge(rep, where, dr, want, e):
    if dr.why:
        rep.undec(where, dr.why)
        return False
    rep.ob("curves compared", len(want))
    m = match(want, dr.curves)
    if m:
        rep.add(P, "exactly the requested data are drawn", where, m)
        return False
    return True


def returned(rep, where, r, given, n=None):
    """the figure and axes of the caller come back"""
    if not given:
        return True
    r = pick(r)
    if isinstance(r, ListVal) or not isinstance(r, tuple) or len(r) != 2:
        return True
    f, a = pick(r[0]), r[1]
    rep.ob("figures and axes returned", 1)
    if isinstance(f, FigV) and f.tag != "mine":
        rep.add(P, "the caller's figure and axes are used and returned", where, "another figure is returned")
        return False
    a = pick(a)
    if isinstance(a, AxV) and a.tag != "mine":
        rep.add(P, "the caller's figure and axes are used and returned", where, "other axes are returned")
        return False
    return True


def both(seed, path, nval, rep):
    """plot_all: states on the first axes, controls on the second"""
    N = sym("N")
    for given in (False, True):
        for legend in (True, False):
            it, cfg = fresh_it(path)
            x, u, t = symarr("data", N, sym("C")), symarr("inp", N, sym("nu")), symarr("time", N)
            kw = {"legend": TRUE if legend else FALSE, "name": "A"}
            if given:
                kw["fig"], kw["axs"] = FigV("mine"), it.new(axes2(it))
            where = "post_process.plot_all(legend=%s%s)" % (legend, ", axes given" if given else "")
            rep.analysed.add("post_process.plot_all")
            try:
                plotted, r = scene(it, lambda: it.call(attr(it, "post_process", "plot_all"), [x, u, t], kw, None))
            except Exception as e:
                rep.undec(where, "%s: %s" % (type(e).__name__, e))
                continue
            for k in range(nval):
                e = valu(seed, k)
                with tm.use_env(e):
                    tag = "mine" if given else (cfg.made[0][0] if len(cfg.made) == 1 else None)
                    want = []
                    for (a, nm, s, n) in ((x, "Astate", 0, int(ev(sym("C")))), (u, "Acontrol", 1, int(ev(sym("nu"))))):
                        for d in range(n):
                            want.append(((tag, s) if tag else ANY, vec(t), column(a, d), "%s %d" % (nm, d + 1) if legend else None))
                    dr = Drawn(plotted)
                    if not judge(rep, where, dr, want, e) or not returned(rep, where, r, given):
                        break


def methods(seed, path, nval, rep, cls="mpopt"):
    """the plotting methods of a post processor: the curves are the data get_data returns"""
    for P_ in ("sym", 1):
        b = PB(cls, path, P=P_)
        install(b.cfg)
        it = b.it
        it.plotted = []
        tm.MIN.update({"D": 1, "dims": 0})
        post = b.post()
        jobs = []
        for interp in (True, False):
            I = TRUE if interp else FALSE
            for name in ("plot_x", "plot_u", "plot_phases", "plot_phase"):
                for given in (False, True):
                    for ph in (None, "list"):
                        if name == "plot_phase" and ph is None:
                            continue
                        if name in ("plot_x", "plot_u") and given and ph is None:
                            continue
                        jobs.append((name, interp, I, given, ph, None))
            jobs.append(("plot_x", interp, I, False, "list", "dims"))
            jobs.append(("plot_u", interp, I, False, "list", "dims"))
        for name, interp, I, given, ph, dimsel in jobs:
            where = "post_process.%s(interpolate=%s%s%s%s)" % (name, interp, ", phases given" if ph else "", ", axes given" if given else "",
                                                              ", dims given" if dimsel else "")
            rep.analysed.add("post_process." + name)
            b.cfg.made.clear()
            try:
                phases = b.phases() if ph and name != "plot_phase" else None
                if name == "plot_phase":
                    one = it.new(ListVal([Item(b.ph(ZERO))]))
                    data_phases = one
                elif phases is None:
                    data_phases = it.getattr(post, "phases", None)
                else:
                    data_phases = phases
                raw = b.call(post, "get_data", [data_phases], {"interpolate": FALSE})
                fine = b.call(post, "get_data", [data_phases], {"interpolate": TRUE}) if interp else None
                kw = {"interpolate": I}
                if name == "plot_phase":
                    kw["phase"] = b.ph(ZERO)
                elif phases is not None:
                    kw["phases"] = phases
                if given:
                    kw["fig"] = FigV("mine")
                    kw["axs"] = it.new(axes2(it)) if name in ("plot_phases", "plot_phase") else AxV("mine", ZERO)
                if dimsel:
                    v = fresh("q")
                    kw["dims"] = it.new(ListVal([Comp(v, sym("D"), [Item(sym("dims", var0(v)))])]))
                plotted, r = scene(it, lambda: it.call(it.getattr(post, name, None), [], kw, None))
            except Exception as e:
                rep.undec(where, "%s: %s" % (type(e).__name__, e))
                continue
            for k in range(nval):
                e = env_for(seed, k, b)
                with tm.use_env(e):
                    rng = random.Random("dims/%s/%s" % (seed, k))
                    nx, nu = int(ev(sym("nx"))), int(ev(sym("nu")))
                    D = rng.choice([1, 2])
                    pool = nx if name == "plot_x" else nu
                    dd = [rng.randrange(pool) for _ in range(D)]
                    e.fixed["D"] = D
                    e.fixed["dims"] = lambda i: dd[int(i)]
                    try:
                        want = wanted(name, interp, raw, fine, dd if dimsel else None, nx, nu, given, b.cfg.made)
                        dr = Drawn(plotted)
                    except (Undecided, AttributeError, TypeError, KeyError) as ex:
                        rep.undec(where, "%s: %s" % (type(ex).__name__, ex))
                        break
                    if not judge(rep, where, dr, want, e) or not returned(rep, where, r, given):
                        break


def wanted(name, interp, raw, fine, dims, nx, nu, given, made):
    want = []
    live = [m for m in made if all(bool(ev(c)) == bool(v) for c, v in m[3])]
    tag = "mine" if given else (live[0][0] if len(live) == 1 else ANY)

    def ax(i):
        return ANY if tag is ANY else (tag, i)
    if name in ("plot_x", "plot_u"):
        k, nm, n = (0, "state", nx) if name == "plot_x" else (1, "control", nu)
        dims = range(n) if dims is None else dims
        if name == "plot_x":
            src = fine if interp else raw
            for d in dims:
                want.append((ax(0), vec(src[2]), column(src[0], d), "state %d" % d))
        else:
            for d in dims:
                if interp:
                    want.append((ax(0), vec(raw[2]), column(raw[1], d), "control %d" % d))
                    want.append((ax(0), vec(fine[2]), column(fine[1], d), ANY))
                else:
                    want.append((ax(0), vec(raw[2]), column(raw[1], d), ANY))
        return want
    for src, lab in (((fine, False),) if interp else ()) + ((raw, True),):
        for k, nm, n in ((0, "state", nx), (1, "control", nu)):
            for d in range(n):
                want.append((ax(k), vec(src[2]), column(src[k], d), "%s %d" % (nm, d + 1) if lab else ANY))
    return want


def run(seed, tier, path=SRC, prop=None):
    rep = Report()
    rep.rules += ["the curves drawn, with their axes and labels, are the requested columns of the requested phases, and no others",
                  "the figure and axes passed in are drawn on and returned"]
    nval = 4 if tier == "quick" else 12
    for r in pmap(job, [(f, seed, path, nval) for f in ("methods", "both", "single", "residuals", "evolution")], rep):
        rep.merge(r)
    return rep


def job(a):
    f, seed, path, nval = a
    import sys
    sys.setrecursionlimit(20000)
    rep = Report()
    try:
        globals()[f](seed, path, nval, rep)
    except Exception as e:
        import traceback
        rep.undec(f, "%s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-200:]))
    return rep


def residuals(seed, path, nval, rep):
    """plot_residuals: the norms of the residuals of the requested phases against their times"""
    for given in (False, True):
        it, cfg = fresh_it(path)
        tm.MIN.update({"nq": 1, "ph": 0, "nT": 0})
        a, b_ = fresh("q"), fresh("q")
        p, s = var0(a), var0(b_)

        def per(f):
            return it.new(ListVal([Comp(a, cfg.P, [Item(ListVal([Comp(b_, cfg.S, [Item(f(p, s))])]))])]))
        empty = t_eq(sym("nT", p, s), ZERO)
        time = per(lambda p, s: gate(empty, ListVal([]), Arr("np", (sym("nT", p, s),), lambda k: sym("rt", p, s, k))))
        res = per(lambda p, s: gate(empty, None, Arr("np", (sym("nT", p, s), sym("nx")), lambda k, j: sym("rr", p, s, k, j))))
        v = fresh("q")
        phases = it.new(ListVal([Comp(v, sym("nq"), [Item(sym("ph", var0(v)))])]))
        kw = {"phases": phases, "name": "R"}
        if given:
            kw["fig"], kw["axs"] = FigV("mine"), AxV("mine", ZERO)
        where = "post_process.plot_residuals(%s)" % ("axes given" if given else "")
        rep.analysed.add("post_process.plot_residuals")
        rep.analysed.add("post_process.sort_residual_data")
        try:
            plotted, r = scene(it, lambda: it.call(attr(it, "post_process", "plot_residuals"), [time, res], kw, None))
        except Exception as e:
            rep.undec(where, "%s: %s" % (type(e).__name__, e))
            continue
        for k in range(nval):
            rng = random.Random("res/%s/%s" % (seed, k))
            ph = [rng.randrange(2) for _ in range(2)]
            nq = rng.choice([1, 2])
            if k == 0:
                nq, ph = 1, [1, 0]
            if k == 1:
                nq, ph = 2, [1, 0]
            nT = [[rng.choice([0, 1, 2]), rng.choice([1, 2])] for _ in range(2)]
            e = valuation(seed=seed * 17 + k, P=2, na=1, nx=rng.choice([1, 2, 3]), nu=1, S=2, p=(1, 2),
                          over={"nq": nq, "ph": lambda i: ph[int(i)], "nT": lambda a, s: nT[int(a)][int(s)]})
            with tm.use_env(e):
                tt, yy = [], []
                for i in range(nq):
                    for sg in range(2):
                        for j in range(nT[ph[i]][sg]):
                            tt.append(ev(sym("rt", lift(ph[i]), lift(sg), lift(j))))
                            yy.append(sum(ev(sym("rr", lift(ph[i]), lift(sg), lift(j), lift(d))) ** 2
                                          for d in range(int(ev(sym("nx"))))) ** 0.5)
                dr = Drawn(plotted)
                if dr.why:
                    rep.undec(where, dr.why)
                    break
                rep.ob("residual curves compared", 1)
                bad = [c for c in dr.curves if not (same_numbers(c[1], tt) and same_numbers(c[2], yy))]
                if bad or not dr.curves:
                    rep.add(P, "residual plots show the requested phases", where,
                            "the norms of the residuals of phases %s are not what is drawn" % ph[:nq] if dr.curves else "nothing is drawn")
                    break
                if given and any(c[0] != ("mine", 0) for c in dr.curves):
                    rep.add(P, "the caller's figure and axes are used and returned", where, "drawn elsewhere")
                    break
                if not returned(rep, where, r, given):
                    break


def evolution(seed, path, nval, rep):
    """every drawing of residuals by the optimizers is handed phases, and the ones asked for"""
    for cls in ("mpopt", "mpopt_h_adaptive"):
        b = PB(cls, path)
        install(b.cfg)
        it = b.it
        it.plotted = []
        seen = []

        def hook(it, f, args, kw, node, seen=seen):
            if it.recording:
                seen.append(({k: it.freeze(v) for k, v in kw.items()}, list(tm.FACTS), list(it.loops), it.where(node)))
            return ((FigV("r"), AxV("r")),)
        b.cfg.func_hooks[("post_process", "plot_residuals")] = hook

        def per_segment(n):
            # what is drawn is not the question here
            def h(it, f, args, kw, node):
                out = []
                for q in range(n):
                    v = fresh("q")
                    out.append(it.new(ListVal([Comp(v, b.cfg.S, [Item(Arr("np", (ONE, sym("nx")), lambda i, j, v=v: sym("val", var0(v), j)))])])))
                return (tuple(out),)
            return h
        for c in ("mpopt", "mpopt_h_adaptive"):
            for fn, n in (("compute_states_from_solution_dynamics", 4), ("get_dynamics_residuals_single_phase", 3),
                          ("get_state_second_derivative_single_phase", 3)):
                b.cfg.func_hooks[(c, fn)] = per_segment(n)
            b.cfg.func_hooks[(c, "refine_segment_widths_based_on_residuals")] = lambda it, f, args, kw, node: (TopV("widths"),)
            b.cfg.func_hooks[(c, "compute_segment_widths_at_times")] = lambda it, f, args, kw, node: (TopV("widths"),)
            b.cfg.func_hooks[(c, "compute_time_at_max_values")] = lambda it, f, args, kw, node: (TopV("times"),)
        phases = b.phases()
        # two groups of phases to plot: the default ones, and the last phase
        ocp = it.getattr(b.mp, "_ocp", None)
        o = it.get(ocp)
        groups = o.attrs["phases_to_plot"]
        gv = it.get(groups)
        it.put(ocp, o.set("phases_to_plot", it.new(ListVal(list(gv.parts) + [Item(it.new(ListVal([Item(b.cfg.P - ONE)])))]))))
        jobs = []
        if cls == "mpopt":
            jobs = [("get_states_residuals", {"plot": TRUE, "phases": phases}, "phases"), ("get_states_residuals", {"plot": TRUE}, "all"),
                    ("get_dynamics_residuals", {"plot": TRUE}, "all"), ("get_state_second_derivative", {"plot": TRUE}, "all")]
        else:
            o = it.get(b.mp)
            it.put(b.mp, o.set("plot_residual_evolution", TRUE).set("fig", FigV("f")).set("axs", AxV("a")).set("iter_count", sym("itc")))
            jobs = [("compute_seg_width_based_on_residuals", {"method": "merge_split"}, "plot"),
                    ("compute_seg_width_based_on_input_slope", {}, "plot")]
        for name, kw, what in jobs:
            where = "%s.%s(%s)" % (cls, name, ", ".join(sorted(kw)))
            rep.analysed.add("%s.%s" % (cls, name))
            del seen[:]
            try:
                it.call(it.getattr(b.mp, name, None), [b.solution], dict(kw), None)
            except Exception as e:
                rep.undec(where, "%s: %s" % (type(e).__name__, e))
            if not seen:
                rep.undec(where, "no drawing seen")
            for k2, facts, loops, w in seen:
                for k in range(nval):
                    e = env_for(seed, k, b)
                    with tm.use_env(e):
                        try:
                            if loops or not all(bool(ev(c)) == bool(v) for c, v in facts):
                                continue
                            if listy(k2.get("phases")):
                                got = "groups"
                            else:
                                got = pick(k2["phases"]) if "phases" in k2 else lift(0)
                                got = [int(x) for x in nums(got)] if not isinstance(got, RangeV) else list(range(int(ev(got.lo)), int(ev(got.lo)) + int(ev(got.n))))
                        except (Undecided, AttributeError, TypeError, KeyError) as ex:
                            rep.undec(where, "%s: %s" % (type(ex).__name__, ex))
                            break
                        n = int(ev(b.cfg.P))
                        want = list(range(n)) if what == "all" else e.ph if what == "phases" else e.pd + [n - 1]
                        rep.ob("phases handed to residual plots", 1)
                        if got != want:
                            rep.add(P, "residual plots show the requested phases", "%s at line %d" % (where, w[1]),
                                    "phases %s instead of %s" % (got, want))
                            break


def listy(v):
    """a list whose items are lists: groups of phases, not phases"""
    v = pick(v)
    if isinstance(v, ListVal):
        for c in v.parts:
            for x in (c.parts if isinstance(c, Comp) else [c]):
                if isinstance(pick(getattr(x, "v", x)), (ListVal, tuple)):
                    return True
    return False
