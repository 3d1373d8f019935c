"""C27, C28, C29: a fresh problem, validation, parameters of user functions."""
import random, traceback
from . import terms as tm
from .terms import ev, lift, sym, ONE, ZERO, TRUE, FALSE, var0, fresh, Undecided
from .values import *
from . import arrays as ar
from .interp import ObjC, Unsupported
from .harness import Cfg, setup, top_frame, make_ocp, poly_list, np1, FAMS, valuation
from .nlpcheck import numvec, reachable, nlp_valuation
from .report import Report, SRC, pmap
from .sizes import pick

INF = float("inf")
ARRAYS = {"x00": "x", "xf0": "x", "u00": "u", "uf0": "u", "a0": "a", "t00": 1, "tf0": 1,
          "lbx": "x", "ubx": "x", "lbu": "u", "ubu": "u", "lba": "a", "uba": "a",
          "lbt0": 1, "ubt0": 1, "lbtf": 1, "ubtf": 1, "lbe": "x", "ube": "x"}
PAIRS = [("lbx", "ubx"), ("lbu", "ubu"), ("lba", "uba"), ("lbt0", "ubt0"), ("lbtf", "ubtf"), ("lbe", "ube")]


# ------------------------------------------------------------------ C28
class VCfg(Cfg):
    def items(self, it, fam, data, p, n):
        return Cfg.items(self, it, fam, data, p, sym("dynlen", p) if fam == "dyn" else n)


def free_ocp(it, cfg):
    """a problem whose every size is independent of the others"""
    nx, nu, na, P = sym("nx"), sym("nu"), cfg.na, cfg.P
    at = dict(it.get(make_ocp(it, cfg)).attrs)
    for n in ("scale_x", "scale_u", "scale_a"):
        at[n] = np1(n, sym("n_" + n))
    for attr, (fam, k) in FAMS.items():
        v = fresh("p")
        at[attr] = it.new(ListVal([Comp(v, sym("n_" + fam), [Item(Callback(fam, (var0(v),)))])]))
    for n in ARRAYS:
        if n in ("lbe", "ube") and P == ONE:
            at[n] = Arr("np", (sym("r_" + n),), lambda i: lift(0))
        else:
            c = ONE if ARRAYS[n] == 1 and n.startswith(("lb", "ub")) else sym("c_" + n)
            at[n] = Arr("np", (sym("r_" + n), c), lambda i, j, n=n: sym(n, i, j))
    return it.new(ObjC("OCP", at))


def consistent(rng, cfg, na0, path=None):
    P = 1 if cfg.P == ONE else pick(rng, [2, 3], path)
    sz = {"x": pick(rng, [1, 2, 3], path), "u": pick(rng, [1, 2], path),
          "a": 0 if na0 else pick(rng, [1, 2], path), 1: 1}
    f = {"P": P, "nx": sz["x"], "nu": sz["u"], "na": sz["a"]}
    for n in ("dyn", "pc", "rc", "tc", "tcon"):
        f["n_" + n] = P
    for n in ("x", "u", "a"):
        f["n_scale_" + n] = sz[n]
    for n, d in ARRAYS.items():
        f["r_" + n] = P - 1 if n in ("lbe", "ube") else P
        f["c_" + n] = sz[d]
    f["dynlen"] = lambda p, d=sz["x"]: d
    h = [rng.choice([0, 1]) for _ in range(2 * P)]
    m = [rng.choice([1, 2, 3]) for _ in range(2 * P)]
    f["has_pc"] = lambda p: h[int(p)]
    f["has_tcon"] = lambda p: h[P + int(p)]
    f["npc"] = lambda p: m[int(p)]
    f["ntcon"] = lambda p: m[P + int(p)]
    for lo, hi in PAIRS:
        vals = {}

        def both(i, j, k, vals=vals, rng=rng):
            i, j = int(i), int(j)
            if (i, j) not in vals:
                a = rng.choice([-INF, -2.5, 0.0, 1.25])
                w = rng.choice([0.0, 0.0, 1.5, INF])
                b = a + w if a > -INF else rng.choice([-1.0, 0.0, INF])
                vals[(i, j)] = (a, b)
            return vals[(i, j)][k]
        f[lo] = lambda i, j, both=both: both(i, j, 0)
        f[hi] = lambda i, j, both=both: both(i, j, 1)
    return f, sz, P


def broken(f, sz, P, na0):
    """(what is inconsistent, overriding values): each breaks one requirement only"""
    out = []

    def bump(what, key, d):
        if f[key] + d >= 0:
            out.append((what, {key: f[key] + d}))
    for n, t in (("dyn", "dynamics"), ("pc", "path constraints"), ("rc", "running costs"),
                 ("tc", "terminal costs"), ("tcon", "terminal constraints")):
        bump("one more %s function than phases" % t, "n_" + n, 1)
    for n in ("x", "u", "a"):
        for d in ((1,) if f["n_scale_" + n] == 0 else (1, -1)):
            bump("size of scale_" + n, "n_scale_" + n, d)
    for n, d in ARRAYS.items():
        bump("number of phases in " + n, "r_" + n, 1)
        if n in ("xf0", "uf0", "tf0"):
            bump("number of phases in " + n, "r_" + n, -1)
        if n.startswith(("lb", "ub")) and d == 1:
            continue
        if n in ("lbe", "ube") and P == 1:
            continue
        bump("number of components in " + n, "c_" + n, 1)
        if not n.startswith(("lb", "ub")):
            bump("number of components in " + n, "c_" + n, -1)
    for q in range(P):
        for d in (1, -1):
            out.append(("number of state derivatives of phase %d of %d" % (q, P),
                        {"dynlen": lambda p, q=q, d=d: sz["x"] + (d if int(p) == q else 0)}))
    for lo, hi in PAIRS:
        n = ARRAYS[lo]
        for q in range(P - 1 if lo == "lbe" else P):
            for k in range(sz[n]):
                def above(i, j, q=q, k=k, hi=hi):
                    return (3.5 if (int(i), int(j)) == (q, k) else f[lo_of[hi]](i, j))

                def below(i, j, q=q, k=k, hi=hi):
                    return (3.0 if (int(i), int(j)) == (q, k) else f[hi](i, j))
                lo_of = {hi: lo}
                out.append(("%s above %s" % (lo, hi), {lo: (lambda i, j, g=f[lo], q=q, k=k: 3.5 if (int(i), int(j)) ==
                                                                (q, k) else g(i, j)),
                                                       hi: (lambda i, j, g=f[hi], q=q, k=k: 3.0 if (int(i), int(j)) ==
                                                            (q, k) else g(i, j))}))
    return out


def fires(e):
    """the event raises an error under the valuation: True, False, or None if unknown"""
    env = tm.CUR
    saved = dict(env.bind)
    count = [0]

    def inner():
        unknown = False
        for c, v in e.facts + ([(e.data["cond"], False)] if e.kind == "assert" else []):
            try:
                if bool(ev(c)) != bool(v):
                    return False
            except Undecided:
                unknown = True
        return None if unknown else True

    def go(k):
        if k == len(e.loops):
            count[0] += 1
            return inner()
        v, n = e.loops[k]
        unknown = False
        for j in range(int(ev(n))):
            if count[0] > 3000:
                return None
            env.bind[v] = j
            r = go(k + 1)
            if r:
                return True
            unknown = unknown or r is None
        return None if unknown else False
    try:
        return go(0)
    except Undecided:
        return None
    finally:
        env.bind.clear()
        env.bind.update(saved)


def validation(seed, path, P, na, nval, rep):
    cfg = VCfg(P, na)
    it, cfg = setup(path=path, cfg=cfg)
    tm.MIN.pop("nlinks", None)
    top_frame(it)
    o = free_ocp(it, cfg)
    it.call(it.getattr(o, "validate", None), [], {}, None)
    evs = [e for e in it.events if e.kind in ("assert", "raise", "typeerror")]
    rep.analysed |= set(it.called)
    for k, n in it.notes.items():
        rep.undec("validate", str(k))
    reported = set()
    for k in range(nval):
        rng = random.Random("%s/%s/%s/%s" % (seed, P, na, k))
        f, sz, PN = consistent(rng, cfg, na == 0, path)

        def rejected(over):
            e = valuation(seed * 100 + k, over={**f, **over})
            with tm.use_env(e):
                r = [(x, fires(x)) for x in evs]
            bad = [x for x, y in r if y]
            return bad, any(y is None for x, y in r)
        bad, unknown = rejected({})
        rep.ob("consistent problems examined")
        if unknown:
            rep.undec("validate", "a condition is not decided")
        for x in bad:
            if x.kind == "typeerror" and "None" not in x.data["what"]:
                continue
            w = "%s line %d" % x.where
            rep.add("C28", "a consistent problem is rejected", w,
                    "with %d phases, %d states, %d controls, %d parameters the check fails although every size and bound "
                    "is consistent" % (PN, sz["x"], sz["u"], sz["a"]))
        if bad:
            continue
        for what, over in broken(f, sz, PN, na == 0):
            if what in reported:
                continue
            rep.ob("inconsistent problems examined")
            bad, unknown = rejected(over)
            if not bad:
                reported.add(what)
                if unknown or it.notes:
                    rep.undec("validate", "%s: a condition is not decided" % what)
                else:
                    rep.add("C28", "an inconsistent problem is accepted", "OCP.validate", what)


# ------------------------------------------------------------------ C27
def fresh_problem(seed, path, rep, nval):
    for how in ("keyword", "positional"):
        cfg = Cfg("sym", "sym")
        it, cfg = setup(path=path, cfg=cfg)
        it.havoc = True
        top_frame(it)
        for mn in ("P", "nx", "nu", "na"):
            tm.MIN[mn] = 0
        tm.MIN["P"] = 1
        vals = [sym("nx"), sym("nu"), cfg.P, sym("na")]
        names = ["n_states", "n_controls", "n_phases", "n_params"]
        if how == "keyword":
            o = it.instantiate("OCP", [], dict(zip(names, vals)), None)
        else:
            o = it.instantiate("OCP", vals, {}, None)
        defaults(it, cfg, o, seed, rep, nval)
    sharing(path, rep)
    # no arguments: one state, one control, one phase, no parameters
    cfg = Cfg("sym", "sym")
    it, cfg = setup(path=path, cfg=cfg)
    it.havoc = True
    top_frame(it)
    o = it.instantiate("OCP", [], {}, None)
    a = it.get(o).attrs
    for n, w in (("nx", 1), ("nu", 1), ("n_phases", 1), ("na", 0)):
        rep.ob("default sizes")
        with tm.use_env(valuation(seed)):
            try:
                g = ev(ar.to_scalar(resolve(it.freeze(a.get(n)))))
            except Exception as ex:
                rep.undec("OCP default " + n, ex)
                continue
        if g != w:
            rep.add("C27", "default number of states, controls, phases and parameters", "OCP.__init__ " + n,
                    "%s is %s instead of %d" % (n, g, w))


def spec(P, nx, nu, na):
    def full(n, x):
        return [[x] * n for _ in range(P)]
    s = {"nx": nx, "nu": nu, "na": na, "n_phases": P, "scale_x": [1.0] * nx, "scale_u": [1.0] * nu,
         "scale_a": [1.0] * na, "scale_t": 1.0, "x00": full(nx, 0.0), "xf0": full(nx, 0.0), "u00": full(nu, 0.0),
         "uf0": full(nu, 0.0), "a0": full(na, 0.0), "t00": full(1, 0.0), "tf0": full(1, 1.0),
         "lbx": full(nx, -INF), "ubx": full(nx, INF), "lbu": full(nu, -INF), "ubu": full(nu, INF),
         "lba": full(na, -INF), "uba": full(na, INF), "lbt0": full(1, 0.0), "lbtf": full(1, 0.0),
         "ubt0": [[0.0 if p == 0 else INF] for p in range(P)], "ubtf": full(1, INF),
         "lbe": [[0.0] * nx for _ in range(P - 1)], "ube": [[0.0] * nx for _ in range(P - 1)],
         "diff_u": [0] * P, "du_continuity": [0] * P, "phase_links": [[i, i + 1] for i in range(P - 1)]}
    return s


SIZED = ["midu", "lbdu", "ubdu"]


def nested(it, v):
    """value as nested lists of numbers, with its shape"""
    v = resolve(v)
    if isinstance(v, Gated):
        return nested(it, v.a if bool(ev(v.c)) else v.b)
    if isinstance(v, Arr):
        sh = [int(ev(x)) for x in v.shape]
        if len(sh) == 0:
            return ev(v.at())
        if len(sh) == 1:
            return [ev(ar.to_scalar(v.at(lift(i)))) for i in range(sh[0])]
        if len(sh) == 2:
            return [[ev(ar.to_scalar(v.at(lift(i), lift(j)))) for j in range(sh[1])] for i in range(sh[0])]
        raise Undecided("rank")
    if isinstance(v, (list, tuple)):
        return [nested(it, x) for x in v]
    if isinstance(v, ListVal):
        n = int(ev(v.length()))
        return [nested(it, v.get(lift(i))) for i in range(n)]
    if isinstance(v, (int, float)):
        return v
    if isinstance(v, Ref):
        return nested(it, it.freeze(v))
    if isinstance(v, TopV):
        raise Undecided(str(v))
    return ev(ar.to_scalar(v))


def shape_of(x):
    if not isinstance(x, list):
        return ()
    if not x:
        return (0,)
    return (len(x),) + shape_of(x[0])


def defaults(it, cfg, o, seed, rep, nval):
    attrs = it.get(o).attrs
    rep.analysed |= set(it.called)
    sizes = [(1, 1, 1, 0), (2, 3, 2, 2), (3, 2, 1, 1), (1, 2, 3, 0), (2, 1, 0, 3), (4, 5, 4, 1)][:nval]
    fz = {}
    for n, v in attrs.items():
        try:
            fz[n] = it.freeze(v)
        except Exception as ex:
            rep.undec("OCP attribute " + n, ex)
    for P, nx, nu, na in sizes:
        over = {"P": P, "nx": nx, "nu": nu, "na": na}
        with tm.use_env(valuation(seed, over=over)):
            want = spec(P, nx, nu, na)
            for n, w in want.items():
                rep.ob("attributes of a fresh problem")
                if n not in fz:
                    rep.add("C27", "a fresh problem has every setting", "OCP.__init__ " + n, "attribute never set")
                    continue
                try:
                    g = nested(it, fz[n])
                except Undecided as ex:
                    rep.undec("OCP.__init__ " + n, ex)
                    continue
                except Exception as ex:
                    rep.undec("OCP.__init__ " + n, "%s %s" % (type(ex).__name__, ex))
                    continue
                if P == 1 and n in ("lbe", "ube", "phase_links"):
                    if isinstance(g, list) and len(g) == 0:
                        continue
                if isinstance(g, list) and isinstance(w, list) and shape_of(g) != shape_of(w) and not (
                        size(g) == size(w) == 0 and len(g) == len(w)):
                    rep.add("C27", "sizes of a fresh problem", "OCP.__init__ " + n,
                            "%s has shape %s instead of %s for %d phases, %d states, %d controls, %d parameters" % (
                                n, shape_of(g), shape_of(w), P, nx, nu, na))
                elif g != w:
                    rep.add("C27", "a fresh problem imposes nothing", "OCP.__init__ " + n,
                            "%s is %s instead of %s for %d phases" % (n, str(g)[:120], str(w)[:120], P))
            for n in SIZED:
                rep.ob("sizes of per-phase settings")
                if n not in fz:
                    rep.add("C27", "a fresh problem has every setting", "OCP.__init__ " + n, "attribute never set")
                    continue
                try:
                    g = nested(it, fz[n])
                except Exception as ex:
                    rep.undec("OCP.__init__ " + n, "%s %s" % (type(ex).__name__, ex))
                    continue
                if not isinstance(g, list) or len(g) != P:
                    rep.add("C27", "sizes of a fresh problem", "OCP.__init__ " + n,
                            "%s has shape %s for %d phases" % (n, shape_of(g), P))
            try:
                lo, hi = nested(it, fz["lbdu"]), nested(it, fz["ubdu"])
                rep.ob("slope limits ordered")
                if any(a > b for a, b in zip(lo, hi)):
                    rep.add("C27", "bounds of a fresh problem are consistent", "OCP.__init__ lbdu", "lbdu above ubdu")
            except Exception:
                pass
            functions(it, o, fz, P, nx, nu, na, rep)


def size(x):
    return sum(size(y) for y in x) if isinstance(x, list) else 1


def functions(it, o, fz, P, nx, nu, na, rep):
    """default functions: zero dynamics and costs, no constraints, with and without the parameter argument"""
    for n, zero in (("dynamics", "list"), ("running_costs", "zero"), ("terminal_costs", "zero"),
                    ("path_constraints", "none"), ("terminal_constraints", "none")):
        fam, k = FAMS[n]
        l = resolve(fz.get(n))
        if not isinstance(l, ListVal):
            if n not in fz:
                rep.add("C27", "a fresh problem has every setting", "OCP.__init__ " + n, "attribute never set")
            else:
                rep.undec("OCP." + n, "not a list")
            continue
        rep.ob("default functions")
        try:
            m = int(ev(l.length()))
        except Undecided as ex:
            rep.undec("OCP." + n, ex)
            continue
        if m != P:
            rep.add("C27", "sizes of a fresh problem", "OCP.__init__ " + n, "%d functions for %d phases" % (m, P))
            continue
        for p in sorted({0, P - 1}):
            for with_a in (True, False):
                args = [Arr("np", (lift(nx),), lambda i: sym("ax", i)), Arr("np", (lift(nu),), lambda i: sym("au", i)),
                        sym("at")] if k == 4 else [Arr("np", (lift(nx),), lambda i: sym("ax", i)), sym("atf"),
                                                   Arr("np", (lift(nx),), lambda i: sym("ax0", i)), sym("at0")]
                if with_a:
                    args.append(Arr("np", (lift(na),), lambda i: sym("aa", i)))
                rep.ob("default functions called")
                before = len(it.events)
                try:
                    r = it.call(resolve(l.get(lift(p))), args, {}, None)
                    r = resolve(it.freeze(r))
                    bad = [e for e in it.events[before:] if e.kind in ("badcall", "arity", "typeerror")]
                    if bad:
                        rep.add("C27", "default functions take the documented arguments", "OCP.__init__ " + n,
                                "call with%s parameters fails" % ("" if with_a else "out"))
                        continue
                    while isinstance(r, Gated):
                        r = resolve(r.a if bool(ev(r.c)) else r.b)
                    if isinstance(r, TopV):
                        raise Undecided(str(r))
                    if zero == "none":
                        ok = r is None
                    elif r is None:
                        ok = False
                    else:
                        g = nested(it, r)
                        ok = g == [0] * nx if zero == "list" else g == 0
                except Undecided as ex:
                    rep.undec("OCP." + n, ex)
                    continue
                except Exception as ex:
                    rep.undec("OCP." + n, "%s %s" % (type(ex).__name__, ex))
                    continue
                if not ok:
                    rep.add("C27", "a fresh problem imposes nothing", "OCP.__init__ " + n,
                            "the default function returns %s in phase %d of %d" % (
                                {"list": "something other than one zero per state", "zero": "a nonzero cost",
                                 "none": "constraints"}[zero], p, P))


def sharing(path, rep):
    """points-to sets of the settings after OCP.__init__"""
    import ast
    from . import effects as ef
    t = ef.Tree(path)
    m = t.method("OCP", "__init__")
    if not m:
        rep.undec("OCP.__init__", "not found")
        return
    a = ef.Analysis(t, "OCP", m[1])
    a.run()
    rep.analysed |= set(a.seen)
    looped = []
    for n in ast.walk(t.tree if hasattr(t, "tree") else ast.parse(open(path).read())):
        if isinstance(n, (ast.For, ast.While, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            looped.append(((n.lineno, n.col_offset), (n.end_lineno, n.end_col_offset), isinstance(n, (ast.For, ast.While))))
    holders = {}
    for (o, fld), vals in a.final.heap.items():
        if o != a.me or fld == "*":
            continue
        rep.ob("settings with their own object")
        todo, seen = [(v, 0) for v in vals], set()
        while todo:
            x, d = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            k = a.kind(x)
            if isinstance(x, ef.Ext):
                if x.root.startswith(("default of ", "class ", "module")) and k.startswith(("list", "dict", "array", "?")):
                    rep.add("C27", "problem objects do not share data", "OCP.__init__ " + fld,
                            "%s is kept by every problem" % x)
                elif x.root.startswith("argument ") and k.startswith(("list", "dict", "array")):
                    rep.add("C27", "problem objects do not share data", "OCP.__init__ " + fld,
                            "the caller's %s is kept" % x)
                continue
            if not isinstance(x, ef.Alloc) or not k.startswith(("list", "dict", "array")):
                continue
            if x in a.repeated:
                rep.add("C27", "phases do not share data", "OCP.__init__ " + fld,
                        "one mutable object stands for every phase (line %d)" % a.repeated[x])
            in_loop = any(lo <= q < hi if isinstance(q, tuple) else lo[0] <= q <= hi[0] for q in x.site
                          for lo, hi, stm in looped if isinstance(q, int) or len(q) == 2)
            if not in_loop:
                holders.setdefault(x, set()).add(fld)
            for (b, f2), v2 in a.final.heap.items():
                if b == x and f2 != "<copy>":
                    todo += [(y, d + 1) for y in v2]
    for x, fl in holders.items():
        if len(fl) > 1:
            rep.add("C27", "settings do not share data", "OCP.__init__ " + ", ".join(sorted(fl)),
                    "they hold the same object")


# ------------------------------------------------------------------ C29
ARITY = {"dyn": 3, "pc": 3, "rc": 3, "tc": 4, "tcon": 4}
NAME = {"dyn": "dynamics", "pc": "path constraints", "rc": "running cost", "tc": "terminal cost",
        "tcon": "terminal constraints"}


def has_checks(seed, path, na, rep):
    """has_path_constraints and has_terminal_constraints ask the function of the phase they are given"""
    for meth, fam in (("has_path_constraints", "pc"), ("has_terminal_constraints", "tcon")):
        cfg = Cfg("sym", na)
        it, cfg = setup(path=path, cfg=cfg)
        it.havoc = True
        top_frame(it)
        o = make_ocp(it, cfg)
        q = sym("q")
        r = it.freeze(it.call(it.getattr(o, meth, None), [q], {}, None))
        r0 = it.freeze(it.call(it.getattr(o, meth, None), [], {}, None))
        rep.analysed |= set(it.called)
        for P in (2, 3):
            for qv in range(P):
                for mask in range(2 ** P):
                    over = {"P": P, "q": qv}
                    for f2 in ("pc", "tcon"):
                        over["has_" + f2] = (lambda p, f2=f2: ((mask >> int(p)) & 1) if f2 == fam else
                                             1 - ((mask >> int(p)) & 1))
                    with tm.use_env(valuation(seed, over=over)):
                        for val, ph in ((r, qv), (r0, 0)):
                            rep.ob("presence checks")
                            try:
                                v = resolve(val)
                                while isinstance(v, Gated):
                                    v = resolve(v.a if bool(ev(v.c)) else v.b)
                                g = bool(v) if isinstance(v, bool) else bool(ev(ar.to_scalar(v)))
                            except Exception as ex:
                                rep.undec("OCP." + meth, ex)
                                continue
                            if g != bool((mask >> ph) & 1):
                                rep.add("C29", "presence is asked of the same phase's function", "OCP." + meth,
                                        "phase %d of %d: %s although its function %s" % (
                                            ph, P, "present" if g else "absent",
                                            "returns None" if g else "returns constraints"))
        arities(it, seed, na, "OCP." + meth, rep)
        argument_sizes(it, seed, na, rep)


def getters(seed, path, na, rep):
    """every getter gives the function of the phase asked"""
    for attr, (fam, k) in FAMS.items():
        meth = "get_" + attr
        cfg = Cfg("sym", na)
        it, cfg = setup(path=path, cfg=cfg)
        it.havoc = True
        top_frame(it)
        o = make_ocp(it, cfg)
        f = it.call(it.getattr(o, meth, None), [sym("q")], {}, None)
        args = [np1("arg%d" % j, lift(2)) for j in range(k)]
        it.call(f, args, {}, None)
        rep.analysed |= set(it.called)
        calls = [e for e in it.events if e.kind == "usercall"]
        rep.ob("getters")
        if not calls and it.notes:
            rep.undec("OCP." + meth, "not decided")
            continue
        for e in calls or [None]:
            for qv in (0, 1, 2):
                with tm.use_env(valuation(seed, over={"q": qv, "P": 3})):
                    try:
                        ok = e is not None and e.data["fam"] == fam and int(ev(e.data["phase"])) == qv
                    except Undecided as ex:
                        rep.undec("OCP." + meth, ex)
                        continue
                if not ok:
                    rep.add("C29", "getters give the function of the phase asked", "OCP." + meth,
                            "phase %d: %s" % (qv, "another function is called" if e else "no function is called"))
        for e in calls:
            for j, x in enumerate(e.data["args"]):
                with tm.use_env(valuation(seed, over={"P": 3, "q": 1})):
                    try:
                        g, w = nested(it, x), nested(it, args[j])
                    except Exception as ex:
                        rep.undec("OCP." + meth, ex)
                        continue
                if g != w:
                    rep.add("C29", "arguments are passed on in order", "OCP." + meth, "argument %d is replaced" % (j + 1))
        arities(it, seed, na, "OCP." + meth, rep)


def argument_sizes(it, seed, na, rep):
    with tm.use_env(valuation(seed, over={"P": 3, "q": 1, "na": 4 if na != 0 else 0, "nx": 2, "nu": 3})):
        for e in it.events:
            if e.kind != "usercall":
                continue
            tm.CUR.bind.update({v: 0 for v, n in e.loops})
            want = [2, 3, 1, 4] if e.data["fam"] in ("dyn", "pc", "rc") else [2, 1, 2, 1, 4]
            for j, x in enumerate(e.data["args"]):
                if j >= len(want):
                    continue
                rep.ob("arguments of presence checks")
                try:
                    g = size(nested(it, x))
                except Exception as ex:
                    rep.undec("%s line %d" % e.where, ex)
                    continue
                if g != want[j]:
                    rep.add("C29", "presence checks pass arguments of the right size", "%s" % e.where[0],
                            "argument %d of the %s has %d entries instead of %d" % (j + 1, NAME[e.data["fam"]], g, want[j]))


def arities(it, seed, na, what, rep, envs=None):
    done = set()
    for e in it.events:
        if e.kind != "usercall":
            continue
        n = len(e.data["args"])
        w = ARITY[e.data["fam"]] + (0 if na == 0 else 1)
        rep.ob("calls of user functions")
        key = (e.where, n, e.data["fam"])
        if n != w and key not in done:
            ok = False
            for env in envs or [valuation(seed, over={"P": 3, "q": 1})]:
                with tm.use_env(env):
                    ok = ok or reachable(e)
            if ok:
                done.add(key)
                rep.add("C29", "parameters are passed exactly when the problem has them", "%s line %d" % e.where,
                        "%s called with %d arguments instead of %d (%s parameters)" % (
                            NAME[e.data["fam"]], n, w, "no" if na == 0 else "with"))


def builds(seed, path, cls, P, na, rep):
    from .nlpspec import Build
    b = Build(cls, P, na, "sym", path=path)
    rep.analysed |= set(b.it.called)
    envs = [nlp_valuation(seed, k, b) for k in range(3)]
    arities(b.it, seed, na, "building (%s)" % cls, rep, envs)


def queries(seed, path, cls, P, na, rep):
    from . import postcheck as pc
    for meth in ("get_dynamics_residuals", "get_states_residuals"):
        b = pc.PB(cls, path, P, na)
        try:
            b.call(b.mp, meth, [b.solution], {})
        except Exception as ex:
            rep.undec("%s.%s" % (cls, meth), "%s %s" % (type(ex).__name__, ex))
            continue
        rep.analysed |= set(b.it.called)
        envs = [pc.env_for(seed, k, b) for k in range(3)]
        arities(b.it, seed, na, "%s.%s" % (cls, meth), rep, envs)


def validate_calls(seed, path, na, rep):
    cfg = Cfg("sym", na)
    it, cfg = setup(path=path, cfg=cfg)
    it.havoc = True
    top_frame(it)
    o = make_ocp(it, cfg)
    it.call(it.getattr(o, "validate", None), [], {}, None)
    rep.analysed |= set(it.called)
    arities(it, seed, na, "OCP.validate", rep)
    fam = {}
    for e in it.events:
        if e.kind == "usercall":
            fam.setdefault(e.data["fam"], []).append(e)
    argument_sizes(it, seed, na, rep)
    for f in ARITY:
        for q in range(3):
            rep.ob("functions tried by validate")
            with tm.use_env(valuation(seed, over={"P": 3})):
                if any(asked(e, q) for e in fam.get(f, [])):
                    continue
            if not it.notes:
                rep.add("C29", "validation tries the functions of every phase", "OCP.validate " + NAME[f],
                        "the function of phase %d of 3 is never called" % q)


def asked(e, q):
    """the call reaches the function of phase q"""
    env = tm.CUR
    saved = dict(env.bind)

    def go(k):
        if k == len(e.loops):
            return int(ev(e.data["phase"])) == q and all(bool(ev(c)) == bool(v) for c, v in e.facts)
        v, n = e.loops[k]
        for j in range(int(ev(n))):
            env.bind[v] = j
            if go(k + 1):
                return True
        return False
    try:
        return go(0)
    except Undecided:
        return True
    finally:
        env.bind.clear()
        env.bind.update(saved)


CLASSES = ["mpopt", "mpopt_adaptive"]


def job(a):
    import sys
    sys.setrecursionlimit(20000)
    kind, seed, path, args = a
    rep = Report()
    try:
        if kind == "validation":
            validation(seed, path, args[0], args[1], args[2], rep)
        elif kind == "fresh":
            fresh_problem(seed, path, rep, args[0])
        elif kind == "has":
            has_checks(seed, path, args[0], rep)
            getters(seed, path, args[0], rep)
            validate_calls(seed, path, args[0], rep)
        elif kind == "build":
            builds(seed, path, args[0], args[1], args[2], rep)
        elif kind == "query":
            queries(seed, path, args[0], args[1], args[2], rep)
    except Exception as ex:
        rep.undec(str(a[0]) + str(args), traceback.format_exc()[-400:])
    return rep


def run(seed, tier, path=SRC, prop=None):
    jobs = []
    if prop in (None, "C28"):
        n = 4 if tier == "quick" else 40
        jobs += [("validation", seed, path, (P, na, n)) for P in ("sym", 1) for na in ("sym", 0)]
    if prop in (None, "C27"):
        jobs.append(("fresh", seed, path, (6,)))
    if prop in (None, "C29"):
        jobs += [("has", seed, path, (na,)) for na in ("sym", 0)]
        jobs += [(k, seed, path, (c, P, na)) for k in ("build", "query") for c in CLASSES
                 for P in (["sym"] if tier == "quick" else ["sym", 1]) for na in ("sym", 0)]
    rep = Report()
    for r in pmap(job, jobs, rep):
        rep.merge(r)
    rep.rules = {"C27": ["every setting of a fresh problem equals its neutral default, sized from the numbers of states, "
                         "controls, parameters and phases", "default functions return zeros or nothing, with and without "
                         "the parameter argument", "no two settings share one mutable object"],
                 "C28": ["on a consistent problem no assertion or raise of validate is reachable with a false condition",
                         "each single inconsistency makes at least one reachable assertion false or raise reachable"],
                 "C29": ["number of arguments of every reachable call of a user function",
                         "getters and presence checks refer to the phase asked",
                         "presence checks and validation pass arguments of the declared sizes"]}.get(prop, [])
    return rep
