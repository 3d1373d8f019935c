"""C22, second part: keys under which queries add nodes to the collocation table.

The table of the optimizer maps polynomial degrees to nodes; the entries of the degrees in use must survive queries.
Every key written by a query is derived from the source; it must not be a number.
"""
from . import terms as tm
from .terms import sym
from .values import *
from .report import Report, SRC


def job(a):
    cls, meth, path = a
    from .postcheck import PB
    rep = Report()
    try:
        b = PB(cls, path)
        it = b.it
        seen = []

        def hook(it, f, args, kw, node):
            vs = it.bind_args(f, args, kw, node)
            d = it.freeze(vs.get(f.node.args.args[1].arg)) if vs else None
            seen.append((it.get(d) if isinstance(d, Ref) else d, it.where(node)))
            return (None,)
        b.cfg.func_hooks[("Collocation", "init_polynomials_with_customized_roots")] = hook
        kw = {} if meth == "get_states_residuals" else {"phase": b.ph(tm.ZERO)}
        b.call(b.mp, meth, [b.solution], kw)
        for c, where in seen:
            if not isinstance(c, DictVal):
                rep.undec("table %s.%s" % (cls, meth), "keys unknown: %r" % (c,))
                continue
            for wr in c.writes:
                k = wr[2]
                rep.ob("keys added to the collocation table by queries")
                if isinstance(k, (str, StrT)):
                    continue
                try:
                    tm.lift(k)
                except TypeError:
                    rep.undec("table %s.%s" % (cls, meth), "key %r" % (k,))
                    continue
                rep.add("C22", "queries keep the nodes of the degrees in use", "%s.%s: numeric key" % (cls, meth),
                        "key %s, written at %s, may replace the entry of a polynomial degree" % (str(k)[:80], where))
        if not seen:
            rep.undec("table %s.%s" % (cls, meth), "no customised nodes requested")
    except Exception as e:
        rep.undec("table %s.%s" % (cls, meth), "%s: %s" % (type(e).__name__, e))
    return rep


def run(seed, tier, path=SRC):
    import multiprocessing as mp
    rep = Report()
    jobs = [(c, m, path) for c in ("mpopt", "mpopt_adaptive") for m in ("get_states_residuals",
                                                                      "compute_states_from_solution_dynamics")]
    with mp.Pool(4) as pool:
        for r in pool.imap_unordered(job, jobs):
            rep.merge(r)
    return rep
