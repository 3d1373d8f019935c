"""Abstract values: arrays, lists, dictionaries, functions, gated values."""
from . import terms as tm
from .terms import (T, lift, ite, ite_lazy, t_eq, t_le, t_lt, t_not, t_and, t_sum,
                    t_div, t_mod, ZERO, ONE, TRUE, FALSE, Undecided, decide, bind, ev,
                    top, has_top, var, fresh)


class TopV:
    """unknown value"""

    def __init__(self, reason=""):
        self.reason = reason

    def __repr__(self):
        return "TOP(%s)" % self.reason


class Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = Undef()


class Gated:
    """value that is a when c holds, else b"""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "Gated(%r, %r, %r)" % (self.c, self.a, self.b)


class Ref:
    """reference to a mutable cell (list, dict, object, frame)"""
    __slots__ = ("cell",)

    def __init__(self, cell):
        self.cell = cell

    def __eq__(self, o):
        return isinstance(o, Ref) and o.cell == self.cell

    def __hash__(self):
        return hash(("ref", self.cell))

    def __repr__(self):
        return "Ref(%d)" % self.cell


class SubRef:
    """element `idx` of a list held by value inside parent"""

    def __init__(self, parent, idx, val):
        self.parent, self.idx, self.val = parent, idx, val

    def __repr__(self):
        return "SubRef(%r[%r])" % (self.parent, self.idx)


class Arr:
    """array given by its shape and element function.  kind: 'np' or 'ca'"""
    carry = None
    blocks = None
    diag = None
    isbool = False

    def __init__(self, kind, shape, f):
        self.kind = kind
        self.shape = tuple(lift(s) for s in shape)
        self.f = f

    def at(self, *idx):
        return self.f(*[lift(i) for i in idx])

    @property
    def ndim(self):
        return len(self.shape)

    def __repr__(self):
        return "Arr[%s,%s]" % (self.kind, "x".join(map(repr, self.shape)))


class WArr(Arr):
    """array with element/block writes: base then writes in order"""

    def __init__(self, base, writes):
        self.base, self.writes = base, tuple(writes)
        self.kind, self.shape = base.kind, base.shape
        self.f = self._at
        self.carry = None

    def _at(self, *idx):
        return w_lookup(self.base.f, self.writes, idx, arr=True)


class W:
    """write: binders [(var, n)], cond T, region, value
    region: list of per-dimension (lo, n or None) ; value(local idx...) -> T for
    arrays; for lists region=[(idx,None)] and value is a value"""

    def __init__(self, binders, cond, region, val):
        self.binders, self.cond, self.region, self.val = tuple(binders), cond, region, val

    def subst(self, v, t):
        return W([(b, n.subst(v, t)) for b, n in self.binders], self.cond.subst(v, t),
                 [(lo.subst(v, t), n.subst(v, t) if n is not None else None)
                  for lo, n in self.region],
                 vsubst(self.val, v, t))


def w_lookup(basef, writes, idx, arr):
    """value at idx of base with writes applied in order"""
    if not writes:
        return basef(*idx)
    w = writes[-1]
    rest = writes[:-1]
    return w_match(w, idx, arr, lambda: w_lookup(basef, rest, idx, arr))


def w_inside(w, idx):
    c = w.cond
    loc = []
    for (lo, n), i in zip(w.region, idx):
        if n is None:
            c = t_and(c, t_eq(i, lo))
        else:
            c = t_and(c, t_and(t_le(lo, i), t_lt(i, lo + n)))
            loc.append(i - lo)
    return c, loc


def w_value(w, loc, arr):
    if arr:
        return w.val.at(*loc) if isinstance(w.val, Arr) else w.val
    return w.val


def w_match(w, idx, arr, other):
    if not w.binders:
        c, loc = w_inside(w, idx)
        if arr:
            return ite_lazy(c, lambda: w_value(w, loc, arr), other)
        return gate_lazy(c, lambda: w_value(w, loc, arr), other)
    if tm.CUR is not None:
        r = w_search(w, list(w.binders), idx, arr)
        return other() if r is None else r[0]
    # symbolic: solve a point index for the (single) binder
    sol = w_solve(w, idx)
    if sol is not None:
        cond, sub = sol
        loc = []
        for (lo, n), i in zip(w.region, idx):
            if n is not None:
                for v, t in sub:
                    lo = lo.subst(v, t)
                loc.append(i - lo)
        c = w.cond
        for v, t in sub:
            c = c.subst(v, t)
        c = t_and(c, cond)

        def hit():
            x = w.val
            for v, t in sub:
                x = vsubst(x, v, t)
            if arr:
                return x.at(*loc) if isinstance(x, Arr) else x
            return x
        if arr:
            return ite_lazy(c, hit, other)
        return gate_lazy(c, hit, other)
    # give up symbolically; resolved under a valuation
    if arr:
        return lazy(lambda: w_match(w, idx2(idx), arr, other), None)
    return LazyV(lambda: w_match(w, idx2(idx), arr, other))


def idx2(idx):
    return [lift(ev(i)) for i in idx]


def w_solve(w, idx):
    """solve region(binder) == idx for one or more binders, symbolically"""
    sub = []
    cond = TRUE
    binders = list(w.binders)
    names = [b for b, _ in binders]
    for (lo, n), i in zip(w.region, idx):
        if n is not None:
            continue
        vs = [b for b in names if b in lo.fv()]
        if not vs:
            cond = t_and(cond, t_eq(lo, i))
            continue
        if len(vs) != 1:
            # base(s) + q form: match i syntactically
            return None
        v = vs[0]
        d = lo - var0(v)
        if v in d.fv():
            return None
        val = i - d
        sub.append((v, val))
        nb = dict(binders)[v]
        cond = t_and(cond, t_and(t_le(ZERO, val), t_lt(val, nb)))
        names.remove(v)
    if names:
        return None
    return cond, sub


def var0(name):
    return tm.var0(name)


def w_search(w, binders, idx, arr):
    if not binders:
        c, loc = w_inside(w, idx)
        if ev(c):
            v = w_value(w, loc, arr)
            return (v,)
        return None
    v, n = binders[0]
    k = int(ev(n))
    for j in range(k - 1, -1, -1):
        with bind(v, j):
            r = w_search(w, binders[1:], idx, arr)
            if r is not None:
                x = r[0]
                if not isinstance(x, T):
                    x = vsubst(x, v, lift(j))
                else:
                    x = x if x.is_const() else lift(ev(x))
                return (x,)
    return None


class Lazy:
    """scalar computed only under a valuation"""

    def __init__(self, fn, ident):
        self.fn, self._id = fn, ident
        self.binds = []
        self.born = tm._fresh[0]

    def ident(self):
        return self._id

    def fv(self):
        return frozenset(["*"])

    def subst(self, v, t):
        l = Lazy(self.fn, self._id)
        l.born = self.born
        l.binds = bind_more(self.binds, v, t, self.born)
        return l

    def value(self):
        return run_bound(self.fn, self.binds)


def bind_more(binds, v, t, born):
    """substitute v by t in a delayed computation.  The computation itself mentions only
    variables made before it and not yet bound; the images of earlier bindings are terms"""
    out = [(x, y.subst(v, t)) for x, y in binds]
    if any(x == v for x, _ in binds):
        return out
    k = v.rsplit("#", 1)
    if len(k) == 2 and int(k[1]) > born:
        return out
    if isinstance(t, T) and t == tm.var0(v):
        return out
    return out + [(v, t)]


def run_bound(fn, binds):
    env = tm.CUR
    saved = dict(env.bind)
    try:
        vals, off = {}, []
        for v, t in binds:
            try:
                vals[v] = ev(t)
            except Undecided:
                off.append(v)       # matters only if the computation asks for it
        env.bind.update(vals)
        for v in off:
            env.bind.pop(v, None)
        memo = env.memo
        if memo is None:
            return fn()
        key = (fn, frozenset(env.bind.items()), len(env.subst))
        if key not in memo:
            memo[key] = fn()
        return memo[key]
    finally:
        env.bind.clear()
        env.bind.update(saved)


_lazyid = [0]


def lazy(fn, ident=None):
    """term whose value is fn() under a valuation"""
    if tm.CUR is not None:
        r = fn()
        return r if isinstance(r, T) else lift(r)
    _lazyid[0] += 1
    d = Lazy(fn, ident if ident is not None else ("lazy", _lazyid[0]))
    return lazy_atom(d)


def lazy_atom(d):
    key = tuple((v, t.key()) for v, t in d.binds)
    a = tm.Atom("lazy", (d.ident(), key), data=d, fv=frozenset(["*"]))
    return T({((a, 1),): tm.Fraction(1)})


_old_ev_atom = tm.ev_atom
_old_atom_subst = tm.atom_subst


def _ev_atom(a):
    if a.op == "lazy":
        r = a.data.value()
        return ev(r) if isinstance(r, T) else r
    return _old_ev_atom(a)


def _atom_subst(a, v, t):
    if a.op == "lazy":
        return lazy_atom(a.data.subst(v, t))
    return _old_atom_subst(a, v, t)


tm.ev_atom = _ev_atom
tm.atom_subst = _atom_subst


def _tsubst(self, v, t):
    fv = self.fv()
    if v not in fv and "*" not in fv:
        return self
    out = ZERO
    for mono, c in self.m.items():
        x = T({(): c})
        for a, e in mono:
            y = tm.atom_subst(a, v, t) if (v in a.fv or "*" in a.fv) else T({((a, 1),): tm.Fraction(1)})
            x = x * tm.tpow(y, e)
        out = out + x
    return out


T.subst = _tsubst


class LazyV:
    """non scalar value known only under a valuation"""

    def __init__(self, fn, binds=(), born=None):
        self.fn, self.binds = fn, list(binds)
        self.born = tm._fresh[0] if born is None else born

    def force(self):
        if tm.CUR is None:
            return TopV("lazy value")
        return run_bound(self.fn, self.binds)


class ListVal:
    """immutable list content"""
    base = None     # for WList

    def __init__(self, parts):
        self.parts = tuple(parts)

    def length(self):
        n = ZERO
        for p in self.parts:
            n = n + part_len(p)
        return n

    def get(self, i):
        return parts_get(self.parts, i)

    def __repr__(self):
        return "List%r" % (list(self.parts),)


class WList(ListVal):
    def __init__(self, base, writes):
        self.base, self.writes = base, tuple(writes)

    @property
    def parts(self):
        v = fresh("w")
        return (Comp(v, self.length(), (Item(Elem(self, v)),)),)

    def length(self):
        return self.base.length()

    def get(self, i):
        return w_lookup(self.base.get, self.writes, (i,), arr=False)

    def __repr__(self):
        return "WList(%r,%d writes)" % (self.base, len(self.writes))


class Elem:
    """element of a list at index variable v (resolved by substitution)"""

    def __init__(self, lst, v):
        self.lst, self.v = lst, v


class CarryList(ListVal):
    """content of a list at the start of a loop iteration"""

    def __init__(self, cid, entry, mode="top", widx=()):
        self.cid, self.entry, self.mode, self.widx = cid, entry, mode, widx

    @property
    def parts(self):
        return (Splice(self),)

    def length(self):
        return self.entry.length()

    def get(self, i):
        if self.mode == "read":
            for w in self.widx:
                if w is not None and (w - i).m == {}:
                    return self.entry.get(i)
        memo = self.__dict__.setdefault("memo", {})
        if i.key() in memo:
            return memo[i.key()]
        e = resolve(self.entry.get(i))
        if isinstance(e, ListVal):
            c = CarryList(self.cid, e)
            c.outer, c.oidx = self, i
            memo[i.key()] = c
            return c
        if isinstance(e, Arr):
            a = Arr(e.kind, e.shape, lambda *k: top("carried array %r" % (self.cid,)))
            a.carry = ("sub", self, i)
            memo[i.key()] = a
            return a
        return TopV("list content carried through a loop")

    outer = None


def join_writes(x, base):
    """writes of value x, an alternative of versions of the carried element base, or None"""
    x = resolve(x)
    if x is base:
        return ()
    if isinstance(x, (WArr, WList)) and x.base is base:
        return tuple(x.writes)
    if isinstance(x, Gated):
        a, b = join_writes(x.a, base), join_writes(x.b, base)
        if a is not None and b is not None:
            return tuple(merge_writes(x.c, a, b))
    return None


def join_sub(x, carry):
    """one unconditional write per element of a carried list when the writes only update the
    carried element in place"""
    if len(x.writes) < 2 and all(w.cond == tm.TRUE for w in x.writes):
        return x
    w0 = x.writes[0]
    loc = w0.region[0][0]
    if any(w.binders or len(w.region) != 1 or w.region[0][0] != loc for w in x.writes):
        return x
    base = carry.get(loc)
    if not (isinstance(base, CarryList) or isinstance(base, Arr) and base.carry is not None):
        return x
    val = base
    for w in x.writes:
        val = w.val if w.cond == tm.TRUE else Gated(w.cond, w.val, val)
    ws = join_writes(val, base)
    if ws is None:
        return x
    new = (WList if isinstance(base, CarryList) else WArr)(base, ws)
    return WList(carry, [W((), tm.TRUE, w0.region, new)])


def settle_sub(x, entry_of, v, n):
    """content x of a list element after the loop, x being element content at the
    end of one iteration.  (value, bound?)"""
    if isinstance(x, WList) and isinstance(x.base, CarryList) and x.base.outer is not None:
        c = x.base
        e0 = c.entry
        eb, ew = (e0.base, e0.writes) if isinstance(e0, WList) else (e0, ())
        if v in c.oidx.fv():
            return WList(eb, tuple(ew) + tuple(x.writes)), True
        return WList(eb, tuple(ew) + tuple(W(((v, n),) + w.binders, w.cond, w.region, w.val)
                                           for w in x.writes)), False
    if isinstance(x, WArr) and isinstance(x.base.carry, tuple) and x.base.carry[0] == "sub":
        _, c, i = x.base.carry
        e0 = resolve(c.entry.get(i))
        eb, ew = (e0.base, e0.writes) if isinstance(e0, WArr) else (e0, ())
        if v in i.fv():
            return WArr(eb, tuple(ew) + tuple(x.writes)), True
        return WArr(eb, tuple(ew) + tuple(W(((v, n),) + w.binders, w.cond, w.region, w.val)
                                          for w in x.writes)), False
    return None


class Item:
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return repr(self.v)


class Comp:
    """parts repeated for v in 0..n-1"""

    def __init__(self, v, n, parts):
        self.v, self.n, self.parts = v, lift(n), tuple(parts)

    def __repr__(self):
        return "Comp(%s<%r: %r)" % (self.v, self.n, self.parts)

    def subst(self, v, t):
        if v == self.v:
            return Comp(self.v, self.n.subst(v, t), self.parts)
        # avoid capture
        if t is not None and self.v in t.fv():
            nv = fresh("w")
            parts = [part_subst(p, self.v, tm.var0(nv)) for p in self.parts]
            return Comp(nv, self.n.subst(v, t), [part_subst(p, v, t) for p in parts])
        return Comp(self.v, self.n.subst(v, t), [part_subst(p, v, t) for p in self.parts])


class Opt:
    """parts a when c, else parts b"""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, tuple(a), tuple(b)

    def __repr__(self):
        return "Opt(%r ? %r : %r)" % (self.c, self.a, self.b)


class Splice:
    def __init__(self, lst):
        self.lst = lst


class LazyParts:
    """parts known only under a valuation"""

    def __init__(self, fn, binds=(), born=None):
        self.fn, self.binds = fn, list(binds)
        self.born = tm._fresh[0] if born is None else born

    def force(self):
        return run_bound(self.fn, self.binds)


def part_len(p):
    if isinstance(p, Item):
        return ONE
    if isinstance(p, Comp):
        ls = [part_len(q) for q in p.parts]
        n = ZERO
        for l in ls:
            n = n + l
        if p.v in n.fv() or "*" in n.fv():
            with_v = n
            return t_sum(p.n, lambda j: _bsub(with_v, p.v, j))
        return n * p.n
    if isinstance(p, Opt):
        return ite_lazy(p.c, lambda: sum_len(p.a), lambda: sum_len(p.b))
    if isinstance(p, Splice):
        return p.lst.length()
    if isinstance(p, LazyParts):
        return lazy(lambda: sum_len(p.force()))
    raise TypeError(p)


def _bsub(t, v, j):
    if tm.CUR is not None:
        with bind(v, j):
            return lift(ev(t))
    return t.subst(v, j)


def sum_len(parts):
    n = ZERO
    for q in parts:
        n = n + part_len(q)
    return n


def part_subst(p, v, t):
    if isinstance(p, Item):
        return Item(vsubst(p.v, v, t))
    if isinstance(p, Comp):
        return p.subst(v, t)
    if isinstance(p, Opt):
        return Opt(p.c.subst(v, t), [part_subst(q, v, t) for q in p.a],
                   [part_subst(q, v, t) for q in p.b])
    if isinstance(p, Splice):
        return p
    if isinstance(p, LazyParts):
        return LazyParts(p.fn, bind_more(p.binds, v, t, p.born), p.born)
    raise TypeError(p)


def parts_get(parts, i):
    """value at index i"""
    i = lift(i)
    if not parts:
        return TopV("index out of range")
    p = parts[0]
    if len(parts) == 1:
        return part_get(p, i)
    n = part_len(p)
    c = t_lt(i, n)
    if decide(c) is None and nonneg_diff(i, n):
        c = FALSE
    return gate_lazy(c, lambda: part_get(p, i), lambda: parts_get(parts[1:], i - n))


def nonneg_diff(i, n):
    return tm.nonneg(i - n)


def part_get(p, i):
    if isinstance(p, Item):
        return p.v
    if isinstance(p, Comp):
        if len(p.parts) == 1 and isinstance(p.parts[0], Item):
            return vsubst(p.parts[0].v, p.v, i)
        if tm.CUR is not None:
            k = int(ev(i))
            for j in range(int(ev(p.n))):
                ps = [part_subst(q, p.v, lift(j)) for q in p.parts]
                m = int(ev(sum_len(ps)))
                if k < m:
                    return parts_get(ps, lift(k))
                k -= m
            return TopV("index out of range")
        return LazyV(lambda: part_get(p, lift(ev(i))))
    if isinstance(p, Opt):
        return gate_lazy(p.c, lambda: parts_get(p.a, i), lambda: parts_get(p.b, i))
    if isinstance(p, Splice):
        return p.lst.get(i)
    if isinstance(p, LazyParts):
        if tm.CUR is None:
            return LazyV(lambda: part_get(p, lift(ev(i))))
        return parts_get(p.force(), i)
    raise TypeError(p)


def flat_items(parts):
    """list of Items if all parts are Items else None (symbolic)"""
    out = []
    for p in parts:
        if isinstance(p, Item):
            out.append(p.v)
        elif isinstance(p, Comp) and p.n.is_const() and p.n.const() <= 40:
            for j in range(int(p.n.const())):
                r = flat_items([part_subst(q, p.v, lift(j)) for q in p.parts])
                if r is None:
                    return None
                out.extend(r)
        elif isinstance(p, Opt):
            k = decide(p.c)
            if k is None:
                return None
            r = flat_items(p.a if k else p.b)
            if r is None:
                return None
            out.extend(r)
        elif isinstance(p, LazyParts) and tm.CUR is not None:
            r = flat_items(p.force())
            if r is None:
                return None
            out.extend(r)
        else:
            return None
    return out


def expand(parts):
    """all items, under a valuation"""
    out = []
    for p in parts:
        if isinstance(p, Item):
            out.append(p.v)
        elif isinstance(p, Comp):
            for j in range(int(ev(p.n))):
                out.extend(expand([part_subst(q, p.v, lift(j)) for q in p.parts]))
        elif isinstance(p, Opt):
            out.extend(expand(p.a if ev(p.c) else p.b))
        elif isinstance(p, LazyParts):
            out.extend(expand(p.force()))
        else:
            raise Undecided("carried list")
    return out


class DictVal:
    """immutable dict content: writes in order over an optional external base"""

    def __init__(self, writes=(), ext=None, removed=()):
        # writes: list of (binders, cond, key, val)
        self.writes, self.ext, self.removed = tuple(writes), ext, tuple(removed)

    def __repr__(self):
        return "Dict(%s%s)" % (", ".join(str(w[2]) for w in self.writes),
                               " + %s" % self.ext if isinstance(self.ext, str) else "")


class CarryDict:
    def __init__(self, cid, entry):
        self.cid, self.entry = cid, entry


class StrT:
    """string with symbolic fields"""

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return "StrT%r" % (self.parts,)


class Func:
    def __init__(self, node, frame, cls, name, defaults=(), kwdefaults=None, static=None):
        self.node, self.frame, self.cls, self.name = node, frame, cls, name
        self.defaults, self.kwdefaults = defaults, kwdefaults or {}
        self.static = static
        self.frozen = None

    def __repr__(self):
        return "Func(%s)" % self.name


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __repr__(self):
        return "Bound(%r)" % (self.func,)


class ClassVal:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Class(%s)" % self.name


class Builtin:
    def __init__(self, name, self_=None):
        self.name, self.self_ = name, self_

    def __repr__(self):
        return "Builtin(%s)" % self.name


class ModuleV:
    def __init__(self, name):
        self.name = name


class Callback:
    """user supplied function"""

    def __init__(self, fam, idx):
        self.fam, self.idx = fam, tuple(lift(i) for i in idx)

    def __repr__(self):
        return "Callback(%s%r)" % (self.fam, self.idx)


class CasFun:
    """casadi Function"""

    def __init__(self, ins, outs, outnames=None):
        self.ins, self.outs, self.outnames = ins, outs, outnames


class Model:
    """library object summarised by python methods `call_<name>`/`attr_<name>`"""
    cls = "Model"

    def subst(self, v, t):
        return self


class RangeV:
    def __init__(self, lo, n, step=ONE):
        self.lo, self.n, self.step = lift(lo), lift(n), lift(step)


class Slice:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Splat:
    def __init__(self, v):
        self.v = v


# ------------------------------------------------------------------ gating
def gate_lazy(c, fa, fb):
    k = decide(c)
    if k is True:
        return fa()
    if k is False:
        return fb()
    tm.FACTS.append((c, True))
    try:
        a = fa()
    finally:
        tm.FACTS.pop()
    tm.FACTS.append((c, False))
    try:
        b = fb()
    finally:
        tm.FACTS.pop()
    return gate(c, a, b)


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, T) and isinstance(b, T):
        return a == b
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.cell == b.cell
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b if type(a) == type(b) else False
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, (ClassVal, ModuleV)) and type(a) == type(b):
        return a.name == b.name
    if isinstance(a, Builtin) and isinstance(b, Builtin):
        return a.name == b.name and (a.self_ is b.self_ or same_value(a.self_, b.self_))
    if isinstance(a, Bound) and isinstance(b, Bound):
        return same_value(a.func, b.func) and same_value(a.self_, b.self_)
    if isinstance(a, Func) and isinstance(b, Func):
        return a.node is b.node and a.frame == b.frame and a.frozen is b.frozen
    return False


def gate(c, a, b):
    k = decide(c)
    if k is True:
        return a
    if k is False:
        return b
    if same_value(a, b):
        return a
    if isinstance(a, Gated) and a.c == c:
        a = a.a
    if isinstance(b, Gated) and b.c == c:
        b = b.b
    nc = t_not(c) if isinstance(a, Gated) or isinstance(b, Gated) else None
    if isinstance(a, Gated) and a.c == nc:
        a = a.b
    if isinstance(b, Gated) and b.c == nc:
        b = b.a
    if isinstance(a, T) and isinstance(b, T):
        return ite(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(gate(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Arr) and isinstance(b, Arr) and a.kind == b.kind and a.ndim == b.ndim:
        if isinstance(a, WArr) or isinstance(b, WArr):
            ab = a.base if isinstance(a, WArr) else a
            bb = b.base if isinstance(b, WArr) else b
            if ab is bb:
                aw = a.writes if isinstance(a, WArr) else ()
                bw = b.writes if isinstance(b, WArr) else ()
                return WArr(ab, merge_writes(c, aw, bw))
        if all(x == y for x, y in zip(a.shape, b.shape)):
            r = Arr(a.kind, a.shape, lambda *i: ite_lazy(c, lambda: a.f(*i), lambda: b.f(*i)))
            r.isbool = a.isbool and b.isbool
            return r
    if isinstance(a, ListVal) and isinstance(b, ListVal):
        return merge_list(c, a, b)
    if isinstance(a, DictVal) and isinstance(b, DictVal):
        return merge_dict(c, a, b)
    if isinstance(a, TopV) and isinstance(b, TopV):
        return a
    if isinstance(c, T) and has_top(c):
        if isinstance(a, TopV) or isinstance(b, TopV):
            return TopV("gate")
    return Gated(c, a, b)


def merge_writes(c, aw, bw):
    k = 0
    while k < len(aw) and k < len(bw) and aw[k] is bw[k]:
        k += 1
    out = list(aw[:k])
    nc = t_not(c)
    for w in aw[k:]:
        out.append(W(w.binders, t_and(c, w.cond), w.region, w.val))
    for w in bw[k:]:
        out.append(W(w.binders, t_and(nc, w.cond), w.region, w.val))
    return out


def merge_list(c, a, b):
    if a is b:
        return a
    ab = a.base if isinstance(a, WList) else a
    bb = b.base if isinstance(b, WList) else b
    if ab is bb:
        aw = a.writes if isinstance(a, WList) else ()
        bw = b.writes if isinstance(b, WList) else ()
        return WList(ab, merge_writes(c, aw, bw))
    pa, pb = list(a.parts), list(b.parts)
    k = 0
    while k < len(pa) and k < len(pb) and same_part(pa[k], pb[k]):
        k += 1
    pre = pa[:k]
    pa, pb = pa[k:], pb[k:]
    suf = []
    while pa and pb and same_part(pa[-1], pb[-1]):
        suf.insert(0, pa[-1])
        pa.pop()
        pb.pop()
    if not pa and not pb:
        return a
    if len(pa) == len(pb) and all(isinstance(x, Item) and isinstance(y, Item)
                                  for x, y in zip(pa, pb)):
        mid = [Item(gate(c, x.v, y.v)) for x, y in zip(pa, pb)]
        return ListVal(pre + mid + suf)
    return ListVal(pre + [Opt(c, pa, pb)] + suf)


def same_part(p, q):
    if p is q:
        return True
    if isinstance(p, Item) and isinstance(q, Item):
        return same_value(p.v, q.v)
    if isinstance(p, Splice) and isinstance(q, Splice):
        return p.lst is q.lst
    return False


def merge_dict(c, a, b):
    if a is b:
        return a
    aw, bw = a.writes, b.writes
    k = 0
    while k < len(aw) and k < len(bw) and (aw[k] is bw[k]):
        k += 1
    out = list(aw[:k])
    ra, rb = list(aw[k:]), list(bw[k:])
    # same key written on both sides
    nc = t_not(c)
    for w in ra:
        out.append((w[0], t_and(c, w[1]), w[2], w[3]))
    for w in rb:
        out.append((w[0], t_and(nc, w[1]), w[2], w[3]))
    # collapse plain pairs with the same string key
    res = []
    for w in out:
        done = False
        if isinstance(w[2], str) and not w[0]:
            for j, x in enumerate(res):
                if x[2] == w[2] and not x[0] and isinstance(x[2], str):
                    res[j] = ((), t_or_(x[1], w[1]), w[2], gate(w[1], w[3], x[3]))
                    done = True
                    break
        if not done:
            res.append(w)
    return DictVal(res, a.ext if a.ext == b.ext else (a.ext or b.ext),
                   tuple(set(a.removed) | set(b.removed)))


def t_or_(a, b):
    if a == TRUE or b == TRUE:
        return TRUE
    if t_not(a) == b or t_not(b) == a:
        return TRUE
    return tm.t_or(a, b)


# ------------------------------------------------------------ substitution
def vsubst(x, v, t):
    if isinstance(x, T):
        if tm.CUR is not None and not x.is_const():
            fv = x.fv()
            if v in fv or "*" in fv:
                return x.subst(v, t)
            return x
        return x.subst(v, t)
    if x is None or isinstance(x, (str, ClassVal, ModuleV, TopV, Undef, Ref, float, int)):
        return x
    if isinstance(x, tuple):
        return tuple(vsubst(y, v, t) for y in x)
    if isinstance(x, Elem):
        if v == x.v:
            return x.lst.get(t)
        return Elem(vsubst(x.lst, v, t), x.v)
    if isinstance(x, WArr):
        return WArr(vsubst(x.base, v, t), [w.subst(v, t) for w in x.writes])
    if isinstance(x, Arr):
        return arr_subst(x, v, t)
    if isinstance(x, Gated):
        return gate_lazy(x.c.subst(v, t), lambda: vsubst(x.a, v, t), lambda: vsubst(x.b, v, t))
    if isinstance(x, WList):
        return WList(vsubst(x.base, v, t), [w.subst(v, t) for w in x.writes])
    if isinstance(x, CarryList):
        return x
    if isinstance(x, ListVal):
        return ListVal([part_subst(p, v, t) for p in x.parts])
    if isinstance(x, DictVal):
        return DictVal([(tuple((b, n.subst(v, t)) for b, n in w[0]), w[1].subst(v, t),
                         vsubst(w[2], v, t), vsubst(w[3], v, t)) for w in x.writes],
                       x.ext, x.removed)
    if isinstance(x, StrT):
        return StrT([vsubst(p, v, t) for p in x.parts])
    if isinstance(x, Callback):
        return Callback(x.fam, [i.subst(v, t) for i in x.idx])
    if isinstance(x, Func):
        if x.frozen is None:
            return x
        f = Func(x.node, x.frame, x.cls, x.name, x.defaults, x.kwdefaults, x.static)
        f.frozen = {k: vsubst(y, v, t) for k, y in x.frozen.items()}
        return f
    if isinstance(x, Bound):
        return Bound(vsubst(x.func, v, t), vsubst(x.self_, v, t))
    if isinstance(x, Builtin):
        return Builtin(x.name, vsubst(x.self_, v, t)) if x.self_ is not None else x
    if isinstance(x, CasFun):
        return CasFun([vsubst(y, v, t) for y in x.ins], [vsubst(y, v, t) for y in x.outs], x.outnames)
    if isinstance(x, LazyV):
        return LazyV(x.fn, bind_more(x.binds, v, t, x.born), x.born)
    if isinstance(x, RangeV):
        return RangeV(x.lo.subst(v, t), x.n.subst(v, t), x.step.subst(v, t))
    if isinstance(x, SubRef):
        return SubRef(x.parent, vsubst(x.idx, v, t), vsubst(x.val, v, t))
    if isinstance(x, Model):
        return x.subst(v, t)
    if isinstance(x, Splat):
        return Splat(vsubst(x.v, v, t))
    return x


def arr_subst(x, v, t):
    shape = [s.subst(v, t) for s in x.shape]
    f0 = x.f

    def f(*idx):
        if tm.CUR is not None:
            with bind(v, t):
                r = f0(*idx)
                if isinstance(r, T) and not r.is_const():
                    r = lift(ev(r))
            return r
        if any(v in i.fv() for i in idx):
            names = [fresh("j") for _ in idx]
            r = f0(*[tm.var0(n) for n in names]).subst(v, t)
            for n, i in zip(names, idx):
                r = r.subst(n, i)
            return r
        return f0(*idx).subst(v, t)
    r = Arr(x.kind, shape, f)
    r.isbool = x.isbool
    if x.diag is not None:
        d0 = x.diag
        r.diag = arr_subst(d0, v, t)
    if x.blocks is not None and tm.CUR is None:
        r.blocks = [part_subst(p, v, t) for p in x.blocks]
    r.carry = x.carry
    return r


def resolve(v):
    """drop gates that are decided by the current facts; force lazies"""
    while True:
        if isinstance(v, Gated):
            k = decide(v.c)
            if k is None:
                return v
            v = v.a if k else v.b
        elif isinstance(v, LazyV) and tm.CUR is not None:
            v = v.force()
        elif isinstance(v, SubRef):
            v = v.val
        else:
            return v


def distribute(v, f):
    """apply f below the gates of v"""
    v = resolve(v)
    if isinstance(v, Gated):
        return gate_lazy(v.c, lambda: distribute(v.a, f), lambda: distribute(v.b, f))
    if isinstance(v, LazyV):
        return LazyV(lambda: distribute(v.force(), f))
    return f(v)


def distribute_n(vs, f):
    vs = [resolve(v) for v in vs]
    for k, v in enumerate(vs):
        if isinstance(v, Gated):
            def sub(x, k=k):
                w = list(vs)
                w[k] = x
                return distribute_n(w, f)
            return gate_lazy(v.c, lambda: sub(v.a), lambda: sub(v.b))
        if isinstance(v, LazyV):
            def fs(k=k, v=v):
                w = list(vs)
                w[k] = v.force()
                return distribute_n(w, f)
            return LazyV(fs)
    return f(*vs)
