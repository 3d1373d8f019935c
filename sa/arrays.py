"""Array algebra of numpy ('np') and casadi ('ca') on index functions."""
from . import terms as tm
from .terms import (T, lift, ite_lazy, t_eq, t_le, t_lt, t_not, t_and, t_sum, t_div,
                    t_mod, ZERO, ONE, TRUE, FALSE, decide, ev, t_fn, sym)
from .values import *
from .values import lazy


class Unsupported(Exception):
    pass


def is_num(v):
    return isinstance(v, (T, Arr))


def const_arr(kind, shape, c):
    c = lift(c)
    return Arr(kind, shape, lambda *i: c)


def as_ca(v):
    """casadi view of a value: 2-D"""
    if isinstance(v, T):
        return Arr("ca", (ONE, ONE), lambda i, j: v)
    if isinstance(v, Arr):
        if v.kind == "ca":
            return v
        if v.ndim == 0:
            return Arr("ca", (ONE, ONE), lambda i, j: v.f())
        if v.ndim == 1:
            return Arr("ca", (v.shape[0], ONE), lambda i, j: v.f(i))
        if v.ndim == 2:
            r = Arr("ca", v.shape, v.f)
            r.diag = v.diag
            return r
        if v.ndim == 3 and v.shape[2] == ONE:
            return Arr("ca", v.shape[:2], lambda i, j: v.f(i, j, ZERO))
    if isinstance(v, ListVal):
        return as_ca(np_array(v))
    if isinstance(v, tuple):
        return as_ca(np_array(ListVal([Item(x) for x in v])))
    raise Unsupported("as_ca %r %r" % (v,tm.FACTS))


def scalar_of(v):
    """term of a 1x1 value or None"""
    if isinstance(v, T):
        return v
    if isinstance(v, Arr) and all(s == ONE for s in v.shape):
        return v.at(*[ZERO] * v.ndim)
    return None


def dim2(a, b):
    """broadcast dimension and index adapters"""
    if a == b:
        return a, None, None
    if a == ONE:
        return b, True, None
    if b == ONE:
        return a, None, True
    ca = t_eq(a, ONE)
    cb = t_eq(b, ONE)
    if decide(ca) is False and decide(cb) is False:
        return ite_lazy(t_eq(a, b), lambda: a, lambda: tm.top("shape mismatch")), None, None
    return ite_lazy(ca, lambda: b, lambda: a), ca, cb


def adapt(c, i):
    if c is None:
        return i
    if c is True:
        return ZERO
    return ite_lazy(c, lambda: ZERO, lambda: i)


def elementwise(f, a, b):
    if isinstance(a, T) and isinstance(b, T):
        return f(a, b)
    if isinstance(a, T):
        r = Arr(b.kind, b.shape, lambda *i: f(a, b.f(*i)))
        return r
    if isinstance(b, T):
        return Arr(a.kind, a.shape, lambda *i: f(a.f(*i), b))
    if a.kind == "ca" or b.kind == "ca":
        a, b = as_ca(a), as_ca(b)
        kind = "ca"
    else:
        kind = "np"
    n = max(a.ndim, b.ndim)
    sa = (ONE,) * (n - a.ndim) + a.shape
    sb = (ONE,) * (n - b.ndim) + b.shape
    shape, ia, ib = [], [], []
    for x, y in zip(sa, sb):
        d, p, q = dim2(x, y)
        shape.append(d)
        ia.append(p)
        ib.append(q)
    oa, ob = n - a.ndim, n - b.ndim
    if kind == "ca" and not (all(p is None for p in ia) and all(q is None for q in ib)):
        # casadi broadcasts scalars only (1x1)
        pass
    return Arr(kind, shape, lambda *i: f(
        a.f(*[adapt(c, x) for c, x in list(zip(ia, i))[oa:]]),
        b.f(*[adapt(c, x) for c, x in list(zip(ib, i))[ob:]])))


def as_num(v):
    v = resolve(v)
    if is_num(v):
        return v
    if isinstance(v, ListVal):
        return np_array(v)
    if isinstance(v, tuple):
        return np_array(ListVal([Item(x) for x in v]))
    raise Unsupported("number expected: %r" % (v,))


ARITH = {
    "Add": lambda a, b: a + b,
    "Sub": lambda a, b: a - b,
    "Mult": lambda a, b: a * b,
    "Div": lambda a, b: a / b,
    "FloorDiv": t_div,
    "Mod": t_mod,
}


def t_pow(a, b):
    if b.is_const() and isinstance(b.const(), int) and -6 <= b.const() <= 6:
        if b.const() == 0:
            return ONE
        return tm.tpow(a, b.const())
    return t_fn("pow", a, b)


ARITH["Pow"] = t_pow


def transpose(a):
    if isinstance(a, T):
        return a
    if a.ndim < 2:
        return a
    n = a.ndim
    r = Arr(a.kind, a.shape[::-1], lambda *i: a.f(*i[::-1]))
    return r


def size_of(a):
    n = ONE
    for s in a.shape:
        n = n * s
    return n


def unravel(i, shape, order):
    """multi index of flat index"""
    dims = list(shape)
    if order == "C":
        dims = dims[::-1]
    idx = []
    for k, d in enumerate(dims):
        last = k == len(dims) - 1 or all(x == ONE for x in dims[k + 1:])
        if d == ONE:
            idx.append(ZERO)
        elif last:
            idx.append(i)
            i = ZERO
        else:
            idx.append(t_mod(i, d))
            i = t_div(i, d)
    return idx[::-1] if order == "C" else idx


def ravel_index(idx, shape, order):
    dims = list(zip(idx, shape))
    if order == "C":
        dims = dims[::-1]
    r, stride = ZERO, ONE
    for i, d in dims:
        r = r + i * stride
        stride = stride * d
    return r


def flatten(a, order, kind=None, column=False):
    n = size_of(a)
    shape = a.shape
    nz = [k for k, d in enumerate(shape) if d != ONE]
    if len(nz) <= 1:
        def f(i, *rest):
            idx = [ZERO] * len(shape)
            if nz:
                idx[nz[0]] = i
            return a.f(*idx)
    else:
        def f(i, *rest):
            return a.f(*unravel(i, shape, order))
    if column:
        return Arr(kind or a.kind, (n, ONE), f)
    return Arr(kind or a.kind, (n,), f)


def reshape(a, shape, order="C"):
    total = size_of(a)
    shape = list(shape)
    for k, s in enumerate(shape):
        if s == lift(-1):
            rest = ONE
            for j, x in enumerate(shape):
                if j != k:
                    rest = rest * x
            shape[k] = total / rest
    if len(shape) == a.ndim and all(x == y for x, y in zip(shape, a.shape)):
        return a
    # dropping / adding unit dimensions keeps the order of the others
    src = [d for d in a.shape if d != ONE]
    dst = [d for d in shape if d != ONE]
    if len(src) == len(dst) and all(x == y for x, y in zip(src, dst)):
        pos = [k for k, d in enumerate(a.shape) if d != ONE]
        dpos = [k for k, d in enumerate(shape) if d != ONE]

        def f(*i):
            idx = [ZERO] * a.ndim
            for p, q in zip(pos, dpos):
                idx[p] = i[q]
            return a.f(*idx)
        return Arr(a.kind, shape, f)
    sh = tuple(shape)
    return Arr(a.kind, sh, lambda *i: a.f(*unravel(ravel_index(i, sh, order), a.shape, order)))


# ------------------------------------------------------------------ indexing
def norm_bound(b, n, default):
    if b is None:
        return default
    if isinstance(b, T):
        if b.is_const() and b.const() < 0:
            return n + b
        # k - something negative such as -1 expressed symbolically
        return b
    raise Unsupported("slice bound")


def clip_hi(hi, n):
    """stop bound clipped to the length when that can be decided"""
    if hi == n:
        return hi
    c = t_le(hi, n)
    k = decide(c)
    if k is True:
        return hi
    if k is False:
        return n
    d = n - hi
    if tm.nonneg(-d):
        return n
    if hi.is_const():
        return ite_lazy(c, lambda: hi, lambda: n)
    return lazyclip(hi, n)


def lazyclip(hi, n):
    return ite_lazy(t_le(hi, n), lambda: hi, lambda: n)


def slice_spec(s, n, clip=True):
    """(start, count, step) of a python slice on an axis of length n"""
    step = ONE if s.step is None else s.step
    if not step.is_const():
        raise Unsupported("slice step")
    k = step.const()
    if k > 0:
        lo = norm_bound(s.lo, n, ZERO)
        hi = norm_bound(s.hi, n, n)
        if s.hi is not None and clip:
            hi = clip_hi(hi, n)
        cnt = hi - lo
        if k != 1:
            cnt = t_div(cnt + lift(k - 1), lift(k))
        if not tm.nonneg(cnt) and cnt.is_const():
            cnt = ZERO if cnt.const() < 0 else cnt
        return lo, cnt, k
    if s.lo is None and s.hi is None:
        if k == -1:
            return n - ONE, n, -1
    raise Unsupported("negative slice")


def index_term(i, n):
    """normalise an integer index"""
    if isinstance(i, T):
        if i.is_const() and isinstance(i.const(), int) and i.const() < 0:
            return n + i
        return i
    s = scalar_of(i) if isinstance(i, Arr) else None
    if s is not None:
        return s
    raise Unsupported("index")


def getitem(a, idx):
    """idx: tuple of T / Slice / None / list"""
    if isinstance(a, T):
        a = as_ca(a)
    if a.kind == "ca":
        if len(idx) == 1:
            k = idx[0]
            if isinstance(k, Slice):
                if k.lo is None and k.hi is None and k.step is None:
                    return flatten(a, "F", column=True)
                v = flatten(a, "F", column=True)
                lo, n, st = slice_spec(k, v.shape[0])
                return Arr("ca", (n, ONE), lambda i, j: v.f(lo + i * st, ZERO))
            if isinstance(k, (T, Arr)):
                n = size_of(a)
                i = index_term(k, n)
                if isinstance(i, T):
                    if a.shape[1] == ONE:
                        r = a.at(i, ZERO)
                    elif a.shape[0] == ONE:
                        r = a.at(ZERO, i)
                    else:
                        r = a.at(*unravel(i, a.shape, "F"))
                    return Arr("ca", (ONE, ONE), lambda p, q: r)
            raise Unsupported("ca index")
    if Ellipsis in [x for x in idx if x is Ellipsis]:
        k = [x is Ellipsis for x in idx].index(True)
        used = sum(1 for x in idx if x is not Ellipsis and x is not NEWAXIS)
        idx = idx[:k] + (Slice(None, None, None),) * (a.ndim - used) + idx[k + 1:]
    n_used = sum(1 for x in idx if x is not NEWAXIS)
    if n_used > a.ndim:
        raise Unsupported("too many indices")
    idx = tuple(idx) + (Slice(None, None, None),) * (a.ndim - n_used)
    shape, maps, ax = [], [], 0
    for x in idx:
        if x is NEWAXIS:
            shape.append(ONE)
            maps.append(("new",))
            continue
        n = a.shape[ax]
        if isinstance(x, Slice):
            lo, cnt, st = slice_spec(x, n)
            shape.append(cnt)
            maps.append(("sl", lo, st))
        elif isinstance(x, (T,)):
            maps.append(("pt", index_term(x, n)))
        elif isinstance(x, Arr) and scalar_of(x) is not None and x.kind == "ca":
            maps.append(("pt", index_term(x, n)))
        elif isinstance(x, Arr) and x.ndim == 1 and x.isbool:
            y = mask_positions(x)
            shape.append(y.shape[0])
            maps.append(("fancy", y))
        elif isinstance(x, Arr) and x.ndim == 1:
            shape.append(x.shape[0])
            maps.append(("fancy", x))
        elif isinstance(x, ListVal):
            y = np_array(x)
            shape.append(y.shape[0])
            maps.append(("fancy", y))
        elif isinstance(x, RangeV):
            shape.append(x.n)
            maps.append(("sl", x.lo, x.step))
        else:
            raise Unsupported("index %r" % (x,))
        ax += 1
    if sum(1 for m in maps if m[0] == "fancy") > 1:
        raise Unsupported("fancy")
    if a.kind == "ca":
        # casadi keeps both dimensions
        shape = [ONE if m[0] == "pt" else s for m, s in zip(maps, _expand(shape, maps))]

    def f(*i):
        src, k = [], 0
        for m in maps:
            if m[0] == "new":
                k += 1
            elif m[0] == "pt":
                if a.kind == "ca":
                    k += 1
                src.append(m[1])
            elif m[0] == "sl":
                src.append(m[1] + i[k] * lift(m[2]) if m[2] != 1 else m[1] + i[k])
                k += 1
            else:
                src.append(m[1].f(i[k]))
                k += 1
        return a.f(*src)
    if a.kind != "ca" and not shape:
        return f()
    r = Arr(a.kind, shape, f)
    r.isbool = a.isbool
    if a.kind == "ca":
        r.region = maps
    return r


def mask_positions(m):
    """indices of the true entries of a boolean array"""
    n = m.shape[0]
    cnt = t_sum(n, lambda k: m.f(k))

    def pos(k):
        def run():
            env = tm.CUR
            key = ("mask", id(m), tuple(sorted(env.bind.items())), tuple(id(d) for d in env.subst), len(tm.TRACE))
            hit = env.cache.get(key)
            if hit is None:
                hit = ([i for i in range(int(ev(n))) if ev(m.f(lift(i)))], m, tuple(env.subst))
                env.cache[key] = hit
            want = int(ev(k))
            if not 0 <= want < len(hit[0]):
                raise tm.Undecided("mask position %d of %d (%s of %s)" % (want, len(hit[0]), ev(cnt), ev(n)))
            return hit[0][want]
        return lazy(run)
    return Arr("np", (cnt,), pos)


def _expand(shape, maps):
    out, k = [], 0
    for m in maps:
        if m[0] == "pt":
            out.append(ONE)
        else:
            out.append(shape[k])
            k += 1
    return out


class _New:
    pass


NEWAXIS = _New()


def written(val, vdims):
    """value written to a region with the given sizes"""
    val = resolve(val)
    if isinstance(val, Gated):
        alts = alternatives(val)
        if any(isinstance(x, (Arr, ListVal, tuple, LazyV)) for x in alts):
            def at(x, i):
                x = resolve(x)
                if isinstance(x, Gated):
                    return ite_lazy(x.c, lambda: at(x.a, i), lambda: at(x.b, i))
                if isinstance(x, LazyV):
                    return lazy(lambda: at(x.force(), i))
                try:
                    y = written(x, vdims)
                except Unsupported as e:
                    return tm.top(str(e))
                return y.f(*i) if isinstance(y, Arr) else y
            if not vdims:
                return at(val, ())
            return Arr("np", vdims, lambda *i: at(val, i))
        return to_scalar(val)
    if isinstance(val, (ListVal, tuple)):
        val = np_array(val if isinstance(val, ListVal) else ListVal([Item(x) for x in val]))
    if isinstance(val, Arr):
        if all(s == ONE for s in val.shape) and not vdims:
            val = scalar_of(val)
        elif val.ndim == len(vdims):
            pass
        elif val.ndim > len(vdims):
            # drop unit dims
            keep = [k for k, s in enumerate(val.shape) if s != ONE]
            if len(keep) == len(vdims):
                v0 = val

                def f(*i):
                    src = [ZERO] * v0.ndim
                    for k, x in zip(keep, i):
                        src[k] = x
                    return v0.f(*src)
                val = Arr(val.kind, [v0.shape[k] for k in keep], f)
            else:
                raise Unsupported("set shape")
        else:
            v0, off = val, len(vdims) - val.ndim
            val = Arr(val.kind, vdims, lambda *i: v0.f(*i[off:]))
        if isinstance(val, Arr):
            # broadcast unit dims
            v1 = val
            if any(s == ONE for s in v1.shape):
                val = Arr(v1.kind, vdims, lambda *i: v1.f(
                    *[ZERO if s == ONE else x for s, x in zip(v1.shape, i)]))
            else:
                val = v1
            val.srcshape = v1.shape
    elif not isinstance(val, T):
        raise Unsupported("set value")
    return val


def setitem(a, idx, val):
    """array with a[idx] = val"""
    if a.kind == "ca" and len(idx) == 1:
        k = idx[0]
        if isinstance(k, Slice) and k.lo is None and k.hi is None:
            idx = (Slice(None, None, None), Slice(None, None, None))
        elif a.shape[1] == ONE:
            idx = (k, ZERO)
        elif a.shape[0] == ONE:
            idx = (ZERO, k)
        elif isinstance(k, T):
            idx = tuple(unravel(k, a.shape, "F"))
        else:
            raise Unsupported("set ca")
    idx = tuple(idx) + (Slice(None, None, None),) * (a.ndim - len(idx))
    region, vdims = [], []
    for x, n in zip(idx, a.shape):
        if isinstance(x, Slice):
            lo, cnt, st = slice_spec(x, n)
            if st != 1:
                raise Unsupported("set step")
            region.append((lo, cnt))
            vdims.append(cnt)
        else:
            region.append((index_term(x, n), None))
    val = written(val, vdims)
    w = W((), TRUE, region, val)
    base, ws = (a.base, a.writes) if isinstance(a, WArr) else (a, ())
    r = WArr(base, tuple(ws) + (w,))
    return r


# -------------------------------------------------------------- construction
def elem_generic(lst):
    """a generic element of a list, to learn its rank"""
    for p in lst.parts:
        r = part_generic(p)
        if r is not None:
            return r
    return None


def part_generic(p):
    if isinstance(p, Item):
        return resolve(p.v)
    if isinstance(p, Comp):
        if tm.CUR is not None:
            for q in p.parts:
                r = part_generic(part_subst(q, p.v, ZERO))
                if r is not None:
                    return resolve(r)
            return None
        with tm.under(t_lt(tm.var0(p.v), p.n)):
            for q in p.parts:
                r = part_generic(q)
                if isinstance(r, Elem):
                    r = vsubst(r, r.v, tm.var0(p.v))
                if r is not None:
                    return resolve(r)
    if isinstance(p, Opt):
        for q in p.a + p.b:
            r = part_generic(q)
            if r is not None:
                return r
    if isinstance(p, Splice):
        return resolve(p.lst.get(tm.var0(tm.fresh("g"))))
    return None


def first_alt(v):
    v = resolve(v)
    while isinstance(v, Gated):
        v = resolve(v.a)
    return v


def number_alt(v):
    """first alternative that is a number or an array (a list filled element by element
    starts with None entries)"""
    first = first_alt(v)
    if isinstance(first, (T, Arr, ListVal, tuple)):
        return first
    todo = [v]
    while todo:
        x = resolve(todo.pop(0))
        if isinstance(x, Gated):
            todo += [x.a, x.b]
        elif isinstance(x, (T, Arr, ListVal, tuple)):
            return x
    return first


def np_array(v):
    """np.array of nested lists / numbers"""
    v = resolve(v)
    if isinstance(v, T):
        return v
    if isinstance(v, Arr):
        if v.kind == "np":
            return v
        r = Arr("np", v.shape, v.f)
        r.diag = v.diag
        return r
    if isinstance(v, RangeV):
        return Arr("np", (v.n,), lambda i: v.lo + i * v.step)
    if isinstance(v, tuple):
        v = ListVal([Item(x) for x in v])
    if isinstance(v, ListVal):
        g = elem_generic(v)
        if g is None:
            return Arr("np", (ZERO,), lambda i: tm.top("empty"))
        g = number_alt(g)
        if isinstance(g, LazyV) and isinstance(v, WList):
            # cells found only under a valuation: the kind of the values written
            ws = [number_alt(w.val) for w in v.writes]
            g = next((x for x in ws if isinstance(x, (T, Arr, ListVal, tuple))), g)
        n = v.length()
        if isinstance(g, T):
            return Arr("np", (n,), lambda i: to_scalar(v.get(i)))
        if isinstance(g, (Arr, ListVal, tuple)):
            sub = np_array(g)
            if isinstance(sub, T):
                return Arr("np", (n,), lambda i: to_scalar(v.get(i)))
            vs = [x for s in sub.shape for x in s.fv()]
            sh = sub.shape
            # sizes depending on the element index: take those of element 0
            if any(x.startswith(("w", "i#", "g")) for x in vs):
                sub0 = np_array(first_alt(v.get(ZERO)))
                sh = sub0.shape if isinstance(sub0, Arr) else sh
                sub1 = np_array(first_alt(v.get(tm.lift(1))))
                if isinstance(sub1, Arr) and sub1.ndim == 1 and sub0.ndim == 1 and sub1.shape != sh:
                    # rows of different sizes: an object array of arrays
                    w = tm.fresh("w")
                    return ListVal([Comp(w, n, [Item(distribute(v.get(tm.var0(w)), np_array))])])

            def f(i, *rest):
                x = v.get(i)
                return distribute(x, lambda y: num_at(y, rest))
            return Arr("np", (n,) + tuple(sh), lambda i, *rest: to_scalar(f(i, *rest)))
    raise Unsupported("np.array %r %r" % (v, elem_generic(v) if isinstance(v, ListVal) else ""))


def num_at(y, idx):
    y = np_array(y)
    if isinstance(y, T):
        return y
    if y.ndim != len(idx):
        return tm.top("ragged array")
    return y.f(*idx)


def to_scalar(v):
    v = resolve(v)
    if isinstance(v, T):
        return v
    if isinstance(v, Arr):
        s = scalar_of(v)
        if s is not None:
            return s
        # one element, or an error
        one = TRUE
        for x in v.shape:
            one = t_and(one, t_eq(x, ONE))
        return ite_lazy(one, lambda: v.at(*[ZERO] * v.ndim), lambda: tm.top("array of several numbers used as a number"))
    if isinstance(v, Gated):
        return ite_lazy(v.c, lambda: to_scalar(v.a), lambda: to_scalar(v.b))
    if isinstance(v, LazyV):
        return lazy(lambda: to_scalar(v.force()))
    return tm.top("scalar of %r" % (v,))


# stacking -----------------------------------------------------------------
def stack_parts(parts, block, axis, kind, ndim):
    """concatenate the blocks given by list parts along axis (0/1).
    block(value) -> Arr with ndim dims"""
    parts = tuple(parts)

    def block_of(v):
        v = resolve(v)
        if isinstance(v, Elem):
            raise Unsupported("elem")
        return v

    def rows(v):
        return distribute(v, lambda x: block(x).shape[axis])

    def plen(p):
        if isinstance(p, Item):
            return to_scalar(rows(p.v))
        if isinstance(p, Comp):
            n = ZERO
            if tm.CUR is not None:
                s = 0
                for j in range(int(ev(p.n))):
                    s += sum(int(ev(plen(part_subst(q, p.v, lift(j))))) for q in p.parts)
                return lift(s)
            for q in p.parts:
                with tm.under(t_lt(tm.var0(p.v), p.n)):
                    if isinstance(q, Item) and isinstance(q.v, Elem):
                        q = Item(q.v.lst.get(tm.var0(p.v)) if q.v.v == p.v else q.v)
                    n = n + plen(q)
            if p.v in n.fv() or "*" in n.fv():
                if "*" in n.fv():
                    return lazy(lambda: plen(p))
                return t_sum(p.n, lambda j: n.subst(p.v, j))
            return n * p.n
        if isinstance(p, Opt):
            return ite_lazy(p.c, lambda: total(p.a), lambda: total(p.b))
        if isinstance(p, Splice):
            raise Unsupported("carried list in stack")
        if isinstance(p, LazyParts):
            return lazy(lambda: total(p.force()))
        raise Unsupported("part")

    def total(ps):
        n = ZERO
        for q in ps:
            n = n + plen(q)
        return n

    def pick(ps, i, rest):
        if not ps:
            return tm.sym("oob", i)
        p = ps[0]
        if len(ps) == 1:
            return pick1(p, i, rest)
        n = plen(p)
        return ite_lazy(t_lt(i, n), lambda: pick1(p, i, rest),
                        lambda: pick(ps[1:], i - n, rest))

    def pick1(p, i, rest):
        if isinstance(p, Item):
            def at(x):
                b = block(x)
                idx = list(rest)
                idx.insert(axis, i)
                return b.f(*idx)
            return to_scalar(distribute(p.v, at))
        if isinstance(p, Opt):
            return ite_lazy(p.c, lambda: pick(p.a, i, rest), lambda: pick(p.b, i, rest))
        if isinstance(p, Comp):
            if tm.CUR is not None:
                k = int(ev(i))
                for j in range(int(ev(p.n))):
                    qs = [part_subst(q, p.v, lift(j)) for q in p.parts]
                    m = int(ev(total(qs)))
                    if k < m:
                        return pick(qs, lift(k), rest)
                    k -= m
                return tm.sym("oob", i)
            if len(p.parts) == 1 and isinstance(p.parts[0], Item):
                v0 = v = p.parts[0].v
                with tm.under(t_lt(tm.var0(p.v), p.n)):
                    if isinstance(v, Elem):
                        v = v.lst.get(tm.var0(p.v))
                    r = to_scalar(rows(v))
                if r == ONE:
                    with tm.under(t_lt(i, p.n)):
                        q = Item(vsubst(v0, p.v, i))
                        return pick1(q, ZERO, rest)
                if p.v not in r.fv() and "*" not in r.fv():
                    with tm.under(t_lt(t_div(i, r), p.n)):
                        q = Item(vsubst(v0, p.v, t_div(i, r)))
                        return pick1(q, t_mod(i, r), rest)
            return lazy(lambda: pick1(p, lift(ev(i)), [lift(ev(x)) for x in rest]))
        if isinstance(p, LazyParts):
            return lazy(lambda: pick(p.force(), lift(ev(i)), [lift(ev(x)) for x in rest]))
        raise Unsupported("part")

    g = elem_generic(ListVal(parts))
    if g is None:
        shape = [ZERO if k == axis else ONE for k in range(ndim)]
        r = Arr(kind, shape, lambda *i: tm.top("empty"))
        r.blocks = parts
        r.blockinfo = (block, axis)
        return r
    n = total(parts)
    cross = cross_dims(parts, block, axis)
    shape = list(cross)
    shape.insert(axis, n)

    def f(*idx):
        rest = [x for k, x in enumerate(idx) if k != axis]
        return pick(parts, idx[axis], rest)
    r = Arr(kind, shape, f)
    r.blocks = parts
    r.blockinfo = (block, axis)
    return r


def cross_dims(parts, block, axis):
    """dimensions other than axis, from a non empty block"""
    best = None
    for p in parts:
        if isinstance(p, Item):
            alts = alternatives(p.v)
            for x in alts:
                try:
                    b = block(x)
                except Unsupported:
                    continue
                sh = [s for k, s in enumerate(b.shape) if k != axis]
                if b.shape[axis] == ZERO:
                    best = best or sh
                    continue
                return sh
        elif isinstance(p, Comp):
            qs = []
            if tm.CUR is not None:
                qs = [part_subst(q, p.v, ZERO) for q in p.parts] if ev(p.n) > 0 else []
                sh = cross_dims(qs, block, axis) if qs else None
                if sh is not None:
                    return sh
                continue
            with tm.under(t_lt(tm.var0(p.v), p.n)):
                for q in p.parts:
                    if isinstance(q, Item) and isinstance(q.v, Elem) and q.v.v == p.v:
                        q = Item(q.v.lst.get(tm.var0(p.v)))
                    qs.append(q)
                sh = cross_dims(qs, block, axis)
            if sh is not None and not any(p.v in s.fv() for s in sh):
                return sh
            if sh is not None:
                return [s.subst(p.v, ZERO) for s in sh]
        elif isinstance(p, Opt):
            for alt in (p.a, p.b):
                sh = cross_dims(alt, block, axis) if alt else None
                if sh is not None:
                    return sh
        elif isinstance(p, LazyParts):
            continue
    return best


def alternatives(v):
    v = resolve(v)
    if isinstance(v, Gated):
        return alternatives(v.a) + alternatives(v.b)
    return [v]


def ca_block(v):
    if isinstance(v, ListVal):
        if v.parts == ():
            return Arr("ca", (ZERO, ONE), lambda i, j: tm.top("empty"))
        return as_ca(np_array(v))
    return as_ca(v)


def vertcat(parts):
    return stack_parts(parts, ca_block, 0, "ca", 2)


def horzcat(parts):
    return stack_parts(parts, ca_block, 1, "ca", 2)


def np_block(nd):
    def b(v):
        v = resolve(v)
        if isinstance(v, ListVal) and v.parts == ():
            return Arr("np", (ZERO,) + (ONE,) * (nd - 1), lambda *i: tm.top("empty"))
        if isinstance(v, T):
            raise Unsupported("zero-dimensional array cannot be concatenated")
        if v is None and tm.CUR is None:
            # the initial entry of a list filled by a loop; an error when it is reached
            return Arr("np", (tm.top("None in concatenate"),) * nd, lambda *i: tm.top("None in concatenate"))
        if isinstance(v, LazyV) and tm.CUR is None:
            def got():
                x = v
                while isinstance(x, LazyV):
                    x = resolve(x.force())
                return b(x)
            return Arr("np", [lazy(lambda k=k: ev(got().shape[k])) for k in range(nd)],
                       lambda *i: lazy(lambda: ev(got().f(*[lift(ev(x)) for x in i]))))
        while isinstance(v, LazyV):
            v = resolve(v.force())
        a = np_array(v)
        if isinstance(a, T):
            raise Unsupported("scalar block")
        return a
    return b


def concatenate(v, axis=0):
    v = resolve(v)
    if isinstance(v, Arr):
        a = np_array(v)
        if a.ndim < 2:
            raise Unsupported("concatenate 1-D array")
        # rows joined along axis 0
        n = a.shape[0] * a.shape[1]
        if a.shape[0] == ONE:
            return Arr("np", (a.shape[1],) + a.shape[2:], lambda i, *r: a.f(ZERO, i, *r))
        if a.shape[1] == ONE:
            return Arr("np", (a.shape[0],) + a.shape[2:], lambda i, *r: a.f(i, ZERO, *r))
        return Arr("np", (n,) + a.shape[2:],
                   lambda i, *r: a.f(t_div(i, a.shape[1]), t_mod(i, a.shape[1]), *r))
    if isinstance(v, tuple):
        v = ListVal([Item(x) for x in v])
    if isinstance(v, ListVal):
        nd = rank_of_parts(v.parts) or 1
        return stack_parts(v.parts, np_block(nd), axis, "np", nd)
    raise Unsupported("concatenate")


def rank_of_parts(parts):
    for p in parts:
        if isinstance(p, Item):
            for x in alternatives(p.v):
                if isinstance(x, Arr) and not (x.ndim == 1 and x.shape[0] == ZERO):
                    return x.ndim
                if isinstance(x, ListVal) and x.parts:
                    a = np_array(x)
                    if isinstance(a, Arr):
                        return a.ndim
        elif isinstance(p, Comp):
            qs = []
            if tm.CUR is not None:
                qs = [part_subst(q, p.v, ZERO) for q in p.parts] if ev(p.n) > 0 else []
                r = rank_of_parts(qs) if qs else None
                if r:
                    return r
                continue
            with tm.under(t_lt(tm.var0(p.v), p.n)):
                for q in p.parts:
                    if isinstance(q, Item) and isinstance(q.v, Elem) and q.v.v == p.v:
                        q = Item(q.v.lst.get(tm.var0(p.v)))
                    qs.append(q)
                r = rank_of_parts(qs)
            if r:
                return r
        elif isinstance(p, Opt):
            r = rank_of_parts(p.a) or rank_of_parts(p.b)
            if r:
                return r
    return None


# products ------------------------------------------------------------------
def mtimes(a, b):
    if isinstance(a, T) or isinstance(b, T):
        return elementwise(ARITH["Mult"], a, b)
    a, b = as_ca(a), as_ca(b)
    if a.shape == (ONE, ONE) or b.shape == (ONE, ONE):
        return elementwise(ARITH["Mult"], scalar_of(a) if a.shape == (ONE, ONE) else a,
                           scalar_of(b) if b.shape == (ONE, ONE) else b)
    return matmul(a, b, "ca")


def matmul(a, b, kind):
    if a.diag is not None:
        return Arr(kind, (a.shape[0], b.shape[1]), lambda i, j: a.diag.f(i) * b.f(i, j))
    if b.diag is not None:
        return Arr(kind, (a.shape[0], b.shape[1]), lambda i, j: a.f(i, j) * b.diag.f(j))
    n = a.shape[1]
    return Arr(kind, (a.shape[0], b.shape[1]),
               lambda i, j: t_sum(n, lambda k: a.f(i, k) * b.f(k, j)))


def np_dot(a, b):
    if isinstance(a, T) or isinstance(b, T):
        return elementwise(ARITH["Mult"], a, b)
    if a.kind == "ca" or b.kind == "ca":
        # np.dot on DM calls __array__ conversions: 2-D matrix product
        a, b = np_array(a), np_array(b)
    if a.ndim == 2 and b.ndim == 2:
        return matmul(a, b, "np")
    if a.ndim == 2 and b.ndim == 1:
        return Arr("np", (a.shape[0],), lambda i: t_sum(a.shape[1], lambda k: a.f(i, k) * b.f(k)))
    if a.ndim == 1 and b.ndim == 1:
        return t_sum(a.shape[0], lambda k: a.f(k) * b.f(k))
    if a.ndim == 1 and b.ndim == 2:
        return Arr("np", (b.shape[1],), lambda j: t_sum(a.shape[0], lambda k: a.f(k) * b.f(k, j)))
    raise Unsupported("dot")


def eye(n, kind):
    r = Arr(kind, (n, n), lambda i, j: tm.ite(t_eq(i, j), ONE, ZERO))
    r.diag = Arr("np", (n,), lambda i: ONE)
    return r


def diag(v):
    v = as_ca(v)
    if v.shape[1] == ONE:
        d = Arr("np", (v.shape[0],), lambda i: v.f(i, ZERO))
        r = Arr("ca", (v.shape[0], v.shape[0]),
                lambda i, j: ite_lazy(t_eq(i, j), lambda: v.f(i, ZERO), lambda: ZERO))
        r.diag = d
        return r
    n = v.shape[0]
    return Arr("ca", (n, ONE), lambda i, j: v.f(i, i))


def ca_solve(a, b):
    a = as_ca(a)
    b = as_ca(b)
    if a.diag is None:
        raise Unsupported("solve with a full matrix")
    r = Arr("ca", b.shape, lambda i, j: b.f(i, j) / a.diag.f(i))
    if b.diag is not None:
        r.diag = Arr("np", (a.shape[0],), lambda i: b.diag.f(i) / a.diag.f(i))
    return r


def kron(a, b, kind):
    n0, n1 = b.shape

    def f(i, j):
        return a.f(t_div(i, n0), t_div(j, n1)) * b.f(t_mod(i, n0), t_mod(j, n1))
    return Arr(kind, (a.shape[0] * n0, a.shape[1] * n1), f)


def repeat(a, n, axis=None):
    if isinstance(a, T):
        return const_arr("np", (n,), a)
    a = np_array(a)
    if axis is None:
        a = flatten(a, "C")
        axis = ZERO
    ax = axis.const() if isinstance(axis, T) else axis
    shape = list(a.shape)
    shape[ax] = shape[ax] * n

    def f(*i):
        i = list(i)
        i[ax] = t_div(i[ax], n)
        return a.f(*i)
    return Arr("np", shape, f)


def tile(a, reps):
    a = np_array(a)
    if isinstance(a, T):
        a = Arr("np", (ONE,), lambda i: a)
    if isinstance(reps, T):
        reps = (reps,)
    n = max(a.ndim, len(reps))
    sh = (ONE,) * (n - a.ndim) + a.shape
    rp = (ONE,) * (n - len(reps)) + tuple(reps)
    off = n - a.ndim

    def f(*i):
        return a.f(*[t_mod(x, d) if r != ONE else x for x, d, r in list(zip(i, sh, rp))[off:]])
    return Arr("np", [d * r for d, r in zip(sh, rp)], f)


def linspace(a, b, n):
    """numpy.linspace; a, b numbers or arrays of equal shape"""
    den = n - ONE
    if isinstance(a, T) and isinstance(b, T):
        return Arr("np", (n,), lambda i: a + (b - a) * i / den)
    d = elementwise(ARITH["Sub"], b, a)

    def f(i, *r):
        x = a if isinstance(a, T) else a.f(*r[-a.ndim:] if a.ndim else ())
        y = d if isinstance(d, T) else d.f(*r)
        return x + y * i / den
    return Arr("np", (n,) + d.shape, f)


def reduce_all(a, op):
    """any / all / max / min / sum over all entries"""
    a = as_num(a)
    if isinstance(a, T):
        return a
    n = size_of(a)
    fl = flatten(np_array(a), "C")
    if op == "sum":
        return t_sum(n, lambda i: fl.f(i))

    def run():
        k = int(ev(n))
        xs = [ev(fl.f(lift(i))) for i in range(k)]
        if op == "any":
            return 1 if any(xs) else 0
        if op == "all":
            return 1 if all(xs) else 0
        if not xs:
            raise tm.Undecided("reduction of empty array")
        if op == "max":
            return max(xs)
        if op == "min":
            return min(xs)
        if op == "mean":
            return sum(xs) / len(xs)
        if op == "argmax":
            return xs.index(max(xs))
        if op == "argmin":
            return xs.index(min(xs))
        if op == "norm":
            return sum(x * x for x in xs) ** 0.5
        raise tm.Undecided(op)
    v = tm.fresh("r")
    if tm.CUR is None:
        g = fl.f(tm.var0(v))
        ident = ("red", op, n.key(), g.subst(v, tm.var0("s_red")).key())
        return lazy(run, ident)
    return lazy(run)


def reduce_axis(a, op, ax):
    if isinstance(a, T):
        return a
    if ax < 0:
        ax += a.ndim
    if a.ndim == 1:
        return reduce_all(a, op)
    shape = [s for k, s in enumerate(a.shape) if k != ax]

    def f(*i):
        i = list(i)

        def g(k):
            j = list(i)
            j.insert(ax, k)
            return a.f(*j)
        return reduce_all(Arr("np", (a.shape[ax],), g), op)
    return Arr("np", shape, f)


def map1(f, a):
    if isinstance(a, T):
        return f(a)
    r = Arr(a.kind, a.shape, lambda *i: f(a.f(*i)))
    return r
