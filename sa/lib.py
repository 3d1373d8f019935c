"""Transfer functions of numpy, casadi, matplotlib and Python built-ins."""
import math
from . import terms as tm
from .terms import (T, lift, ite_lazy, t_eq, t_le, t_lt, t_not, t_and, t_or, t_sum, ZERO, ONE,
                    TRUE, FALSE, decide, top, fresh, var0, sym, ev, t_fn, opaque)
from .values import *
from .values import vsubst
from . import arrays as ar
from .arrays import Unsupported
from . import interp as ip
from .interp import Zip, Enum, SetV, SuperV, ExtStr, Maybe, ObjC

BUILTINS = set("""len range enumerate zip sum max min abs int float list tuple set dict isinstance
hasattr getattr setattr print round sorted map filter any all str bool reversed super type id object
iter next repr callable divmod pow slice vars Exception ValueError TypeError KeyError IndexError
AssertionError NotImplementedError RuntimeError AttributeError StopIteration ZeroDivisionError
staticmethod classmethod property complex bytes frozenset hash open format issubclass NameError
Warning UserWarning DeprecationWarning BaseException OverflowError ArithmeticError LookupError
__name__ __file__ NotImplemented Ellipsis exec eval globals locals dir chr ord hex oct bin ascii
memoryview bytearray delattr breakpoint input help compile __import__ aiter anext""".split())

CONSTS = {"np.inf": tm.INF, "ca.inf": tm.INF, "np.newaxis": None, "math.inf": tm.INF,
          "np.pi": lift(math.pi), "math.pi": lift(math.pi), "ca.pi": lift(math.pi),
          "np.nan": tm.atom("nan", ())}

TYPES = {"int", "float", "list", "tuple", "dict", "str", "set", "bool", "np.ndarray", "ca.DM",
         "ca.SX", "ca.MX"}


# ------------------------------------------------------- data of opaque terms
class Data:
    """structured data identifying an opaque result"""

    def __init__(self, vals, binds=()):
        self.vals, self.binds = tuple(vals), tuple(binds)
        self._id = None

    def ident(self):
        if self._id is None:
            self._id = tuple(ident_of(v) for v in self.vals)
        return self._id

    def fv(self):
        s = frozenset()
        for v in self.vals:
            s |= fv_of(v)
        return s

    def subst(self, v, t):
        return Data([vsubst(x, v, t) for x in self.vals])

    def evaluate(self):
        env = tm.CUR
        key = ("data", id(self), tuple(sorted(env.bind.items(), key=lambda x: x[0])),
               tuple(id(d) for d in env.subst), len(tm.TRACE))
        try:
            hit = env.cache.get(key)
        except TypeError:
            return tuple(num_of(v) for v in self.vals)
        if hit is not None:
            return hit[0]
        r = tuple(num_of(v) for v in self.vals)
        env.cache[key] = (r, self, tuple(env.subst))
        return r


_uid = [0]


def ident_of(v, d=0):
    v = resolve(v)
    if isinstance(v, T):
        return v.key()
    if isinstance(v, Arr):
        if v.ndim <= 3:
            names = ["a%d_%d" % (d, k) for k in range(v.ndim)]
            try:
                return ("arr", tuple(s.key() for s in v.shape),
                        v.f(*[var0(n) for n in names]).key())
            except Unsupported:
                pass
        _uid[0] += 1
        return ("arr?", _uid[0])
    if isinstance(v, tuple):
        return tuple(ident_of(x, d) for x in v)
    if isinstance(v, (str, int, float)) or v is None:
        return v
    if isinstance(v, ListVal) and not isinstance(v, (WList, CarryList)):
        return ("list",) + tuple(ident_part(p, d) for p in v.parts)
    if isinstance(v, StrT):
        return ("str",) + tuple(ident_of(x, d) for x in v.parts)
    _uid[0] += 1
    return ("?", _uid[0])


def ident_part(p, d):
    if isinstance(p, Item):
        return ("i", ident_of(p.v, d))
    if isinstance(p, Comp):
        n = "l%d" % d
        q = p.subst(p.v, p.n) if False else Comp(n, p.n, [part_sub(x, p.v, var0(n)) for x in p.parts])
        return ("c", p.n.key(), tuple(ident_part(x, d + 1) for x in q.parts))
    _uid[0] += 1
    return ("?", _uid[0])


def part_sub(p, v, t):
    from .values import part_subst
    return part_subst(p, v, t)


def fv_of(v):
    v = resolve(v)
    if isinstance(v, T):
        return v.fv()
    if isinstance(v, Arr):
        s = frozenset(["*"]) if isinstance(v, WArr) else frozenset()
        for x in v.shape:
            s |= x.fv()
        names = ["z%d" % k for k in range(v.ndim)]
        try:
            s |= v.f(*[var0(n) for n in names]).fv() - set(names)
        except Unsupported:
            s |= {"*"}
        return s
    if isinstance(v, tuple):
        s = frozenset()
        for x in v:
            s |= fv_of(x)
        return s
    if isinstance(v, ListVal) and not isinstance(v, (WList, CarryList)):
        s = frozenset()
        for p in v.parts:
            s |= fv_part(p)
        return s
    if isinstance(v, StrT):
        return fv_of(tuple(v.parts))
    if isinstance(v, (str, int, float)) or v is None:
        return frozenset()
    return frozenset(["*"])


def fv_part(p):
    if isinstance(p, Item):
        return fv_of(p.v)
    if isinstance(p, Comp):
        s = p.n.fv()
        for q in p.parts:
            s |= fv_part(q)
        return s - {p.v}
    return frozenset(["*"])


def num_of(v):
    """hashable numbers of a value under the active valuation"""
    v = resolve(v)
    if isinstance(v, T):
        return tm.norm_num(ev(v))
    if isinstance(v, Arr):
        return tuple(nums_arr(v))
    if isinstance(v, tuple):
        return tuple(num_of(x) for x in v)
    if isinstance(v, ListVal):
        return tuple(num_of(x) for x in expand_list(v))
    if isinstance(v, Gated):
        return num_of(v.a if ev(v.c) else v.b)
    if isinstance(v, StrT):
        return tuple(num_of(x) for x in v.parts)
    if isinstance(v, (str, int, float)) or v is None:
        return v
    if isinstance(v, TopV):
        raise tm.Undecided(v.reason)
    if isinstance(v, LazyV):
        return num_of(v.force())
    if isinstance(v, RangeV):
        return tuple(tm.norm_num(ev(v.lo + v.step * k)) for k in range(int(ev(v.n))))
    if isinstance(v, ExtStr):
        return v.name
    if isinstance(v, SetV):
        return num_of(v.lst)
    raise tm.Undecided("value %r" % (v,))


def expand_list(v):
    if isinstance(v, WList):
        return [v.get(lift(i)) for i in range(int(ev(v.length())))]
    return expand(v.parts)


def nums_arr(v):
    """flat numbers: column major for casadi, row major for numpy"""
    dims = [int(ev(s)) for s in v.shape]
    idx = [()]
    order = range(len(dims))
    if v.kind == "ca":
        return [tm.norm_num(ev(v.at(i, j))) for j in range(dims[1]) for i in range(dims[0])]
    if len(dims) == 2:
        return [tuple(tm.norm_num(ev(v.at(lift(i), lift(j)))) for j in range(dims[1])) for i in range(dims[0])]
    for d in dims:
        idx = [i + (k,) for i in idx for k in range(d)]
    return [tm.norm_num(ev(v.at(*i))) for i in idx]


# ------------------------------------------------------------------- hooks
class Lib:
    BUILTINS = BUILTINS
    CONSTS = CONSTS

    def __init__(self, cfg):
        self.cfg = cfg

    def ext_value(self, it, ext, key):
        f = self.cfg.ext.get((ext, key))
        if f is not None:
            return f(it)
        g = self.cfg.ext.get((ext, None))
        if g is not None:
            return g(it, key)
        return TopV("%s[%s]" % (ext, key))

    def model_binop(self, it, op, x, y):
        for a in (x, y):
            if isinstance(a, Model) and hasattr(a, "binop"):
                return a.binop(it, op, x, y)
        return TopV("model op")

    def class_override(self, it, cls, name):
        return self.cfg.class_override.get((cls, name))

    def func_hook(self, it, f, args, kw, node):
        h = self.cfg.func_hooks.get((f.cls, f.name))
        return h(it, f, args, kw, node) if h else None

    def arr_attr(self, it, a, name):
        if name == "T":
            return ar.transpose(a)
        if isinstance(a, T):
            if name == "shape":
                return ()
            if name == "size":
                return ONE
            return None
        if name == "shape":
            return tuple(a.shape)
        if name == "size" and a.kind == "np":
            return ar.size_of(a)
        if name == "ndim":
            return lift(a.ndim)
        if name == "real":
            return a
        return None

    # ------------------------------------------------------------ callbacks
    def call_user(self, it, f, args, kw, node):
        args = [it.freeze(a) for a in it.flat_args(args)]
        if kw:
            return TopV("keywords to user function")
        return self.cfg.user_call(it, f, args, node)

    def call_casfun(self, it, f, args, kw, node):
        args = [it.freeze(a) for a in it.flat_args(args)]
        if kw:
            names = getattr(f, "innames", None)
            if "**" in kw or not names:
                return TopV("keyword call of casadi function")
            vals = list(args)
            for n in names[len(args):]:
                if n not in kw:
                    return TopV("casadi function default input")
                vals.append(it.freeze(kw[n]))
            args = vals
        if len(args) != len(f.ins):
            it.event("arity", node, fn="casadi function", got=lift(len(args)))
            return TopV("arity")
        args = [ar.as_ca(resolve(a)) if not isinstance(resolve(a), (TopV, Gated, LazyV)) else a for a in args]
        if any(isinstance(a, (TopV, Gated, LazyV)) for a in args):
            return TopV("casadi function argument")
        sub = Subst(f.ins, args)
        outs = [apply_subst(sub, o) for o in f.outs]
        if f.outnames and kw and not args:
            pass
        if len(outs) == 1:
            return outs[0]
        return tuple(outs)

    # ------------------------------------------------------------ functions
    def call(self, it, f, args, kw, node):
        name = f.name
        if isinstance(f, ModuleV) and name.startswith("plt"):
            return self.plt_call(it, name, args, kw, node)
        g = FUNCS.get(name)
        if g is None and "." in name:
            head, meth = name.split(".", 1)
            if isinstance(f, Builtin):
                g = METHODS.get((head, meth))
                if g is not None:
                    return g(self, it, f.self_, args, kw, node)
        if g is None:
            it.unmodelled[name] = it.unmodelled.get(name, 0) + 1
            it.note(node, "library function %s is not modelled" % name)
            for a in args:
                self.escape(it, a)
            return TopV("call of %s" % name)
        if not any(isinstance(a, Splat) for a in args):
            pass
        return g(self, it, args, kw, node)

    def escape(self, it, a):
        pass

    def plt_call(self, it, name, args, kw, node):
        h = self.cfg.plt
        if h is None:
            return TopV(name)
        return h(it, name, [it.freeze(a) for a in args if not isinstance(a, Splat)],
                 {k: it.freeze(v) for k, v in kw.items() if k != "**"}, node)


class Subst:
    """casadi function inputs replaced by values"""

    def __init__(self, ins, args):
        self.ins, self.args = ins, args
        self.fv = None

    def free(self):
        if self.fv is None:
            f = frozenset()
            with no_env():
                for x in list(self.ins) + list(self.args):
                    f |= fv_of(x)
            self.fv = f
        return self.fv

    def table(self):
        env = tm.CUR
        fv = self.free()
        key = ("subst", id(self), tuple(sorted((k, tm.norm_num(v)) for k, v in env.bind.items()
                                               if isinstance(v, (int, float)) and ("*" in fv or k in fv))),
               tuple(id(d) for d in env.subst))
        d = env.cache.get(key)
        if d is not None:
            return d[0]
        d = {}
        for a, b in zip(self.ins, self.args):
            n, m = int(ev(a.shape[0])), int(ev(a.shape[1]))
            n2, m2 = int(ev(b.shape[0])), int(ev(b.shape[1]))
            scal = n2 * m2 == 1
            if n * m != n2 * m2 and not scal:
                raise tm.Undecided("casadi function called with wrong size")
            tr = (n, m) != (n2, m2)
            for i in range(n):
                for j in range(m):
                    k = symkey_at(a, i, j)
                    if scal:
                        v = b.at(0, 0)
                    elif not tr:
                        v = b.at(i, j)
                    elif n == m2 and m == n2:
                        v = b.at(j, i)
                    else:
                        raise tm.Undecided("shape of casadi function argument")
                    d[k] = ev(v)
        env.cache[key] = (d, self, tuple(env.subst))
        return d


class no_env:
    def __enter__(self):
        self.old, tm.CUR = tm.CUR, None

    def __exit__(self, *a):
        tm.CUR = self.old


class no_eval:
    """symbols stay symbols although a valuation is active"""

    def __enter__(self):
        tm.NOSYM[0] += 1

    def __exit__(self, *a):
        tm.NOSYM[0] -= 1




def symkey_at(a, i, j):
    """the symbol an input entry is"""
    with no_eval():
        s = a.at(lift(i), lift(j))
    try:
        return symkey(s)
    except tm.Undecided:
        pass
    # a gated entry: the one symbol read while evaluating it
    saved, tm.CUR.subst = tm.CUR.subst, []
    tm.TRACE.append([])
    try:
        v = ev(a.at(lift(i), lift(j)))
    finally:
        got = tm.TRACE.pop()
        tm.CUR.subst = saved
    ks = set(k for k, x in got if x == v)
    if len(ks) != 1:
        raise tm.Undecided("casadi function input is not a symbol")
    return ks.pop()


def symkey(t):
    if len(t.m) == 1:
        (mono, c), = t.m.items()
        if c == 1 and len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op == "sym":
            a = mono[0][0]
            return (a.args[0],) + tuple(tm.norm_num(ev(x)) for x in a.args[1:])
    raise tm.Undecided("casadi function input is not a symbol")


def apply_subst(sub, o):
    o = resolve(o)
    if isinstance(o, T):
        return lazy_sub(sub, lambda: o)
    if isinstance(o, Arr):
        def f(*idx):
            return lazy_sub(sub, lambda: o.f(*[lift(ev(i)) for i in idx]))
        r = Arr(o.kind, o.shape, f)
        return r
    raise Unsupported("casadi function output")


def lazy_sub(sub, g):
    def run():
        d = sub.table()
        env = tm.CUR
        env.subst.append(d)
        try:
            return lift(ev(g()))
        finally:
            env.subst.pop()
    return lazy(run)


# --------------------------------------------------------------------------
FUNCS = {}
METHODS = {}


def fn(*names):
    def d(f):
        for n in names:
            FUNCS[n] = f
        return f
    return d


def meth(head, *names):
    def d(f):
        for n in names:
            METHODS[(head, n)] = f
        return f
    return d


def frz(it, v):
    return resolve(it.freeze(resolve(v)))


def pure(f):
    """function of fully frozen positional args, distributed over gates"""
    def g(lib, it, args, kw, node):
        if any(isinstance(a, Splat) for a in args):
            args = it.flat_args(args)
        a = [it.freeze(resolve(x)) for x in args]
        k = {n: it.freeze(resolve(v)) for n, v in kw.items()}
        keys = sorted(k)

        def run(*vals):
            vals = list(vals)
            pos, kws = vals[:len(a)], dict(zip(keys, vals[len(a):]))
            for v in vals:
                if isinstance(v, TopV):
                    return TopV("argument: %s" % v.reason)
            return f(it, *pos, **kws)
        return distribute_n(a + [k[n] for n in keys], run)
    return g


def simple(*names):
    def d(f):
        g = pure(f)
        for n in names:
            FUNCS[n] = g
        return f
    return d


# builtins -----------------------------------------------------------------
@fn("len")
def b_len(lib, it, args, kw, node):
    return distribute(args[0], lambda v: len1(it, v))


def len1(it, v):
    if isinstance(v, (Gated, LazyV)):
        v = resolve(v)
    if isinstance(v, (Gated, LazyV)):
        return ar.to_scalar(resolve(distribute(v, lambda x: len1(it, x))))
    if isinstance(v, Ref):
        c = it.get(v)
        if isinstance(c, ListVal):
            return c.length()
        if isinstance(c, DictVal):
            if c.ext is None and all(w[1] == TRUE and not w[0] for w in c.writes):
                return lift(len({str(w[2]) for w in c.writes}))
            return top("len of dict")
        return top("len")
    if isinstance(v, SubRef):
        v = v.val
    if isinstance(v, ListVal):
        return v.length()
    if isinstance(v, (tuple, str)):
        return lift(len(v))
    if isinstance(v, Arr):
        if v.kind == "ca":
            # casadi: number of non zeros for vectors, rows otherwise (len() gives rows)
            return v.shape[0]
        return v.shape[0] if v.ndim else top("len of scalar")
    if isinstance(v, RangeV):
        return v.n
    if isinstance(v, SetV):
        return top("len of set")
    if isinstance(v, Zip) or isinstance(v, Enum):
        return top("len")
    if isinstance(v, Model) and hasattr(v, "length"):
        return v.length(it)
    return top("len of %r" % (v,))


@fn("range")
def b_range(lib, it, args, kw, node):
    def run(*a):
        a = [x if isinstance(x, T) else ar.to_scalar(x) for x in a]
        if len(a) == 1:
            return RangeV(ZERO, a[0])
        if len(a) == 2:
            d = a[1] - a[0]
            if d.is_const() and d.const() < 0:
                d = ZERO
            elif not tm.nonneg(d) and not d.is_const():
                # a possibly negative trip count is an empty loop
                d = d
            return RangeV(a[0], d)
        step = a[2]
        if not step.is_const():
            raise Unsupported("range step")
        s = step.const()
        d = a[1] - a[0]
        if s == 1:
            return RangeV(a[0], d)
        if s > 0:
            return RangeV(a[0], tm.t_div(d + lift(s - 1), lift(s)), step)
        return RangeV(a[0], tm.t_div(-d + lift(-s - 1), lift(-s)), step)
    return distribute_n([it.freeze(resolve(x)) for x in it.flat_args(args)], run)


@fn("enumerate")
def b_enumerate(lib, it, args, kw, node):
    start = args[1] if len(args) > 1 else kw.get("start", ZERO)
    return distribute(args[0], lambda v: Enum(v, start))


@fn("zip")
def b_zip(lib, it, args, kw, node):
    if any(isinstance(a, Splat) for a in args):
        its = it.flat_args(args)
        return Zip([resolve(a) for a in its])
    return Zip([resolve(a) for a in args])


@fn("reversed")
def b_reversed(lib, it, args, kw, node):
    l = it.as_list(args[0])
    return it.list_index(None, l, (Slice(None, None, lift(-1)),))


@fn("list")
def b_list(lib, it, args, kw, node):
    if not args:
        return it.new(ListVal([]))
    v = resolve(args[0])
    if isinstance(v, Ref) and isinstance(it.get(v), ListVal):
        return it.new(it.get(v))
    return it.new(it.as_list(v))


@fn("tuple")
def b_tuple(lib, it, args, kw, node):
    if not args:
        return ()
    l = it.as_list(args[0])
    its = flat_items(l.parts)
    if its is not None:
        return tuple(its)
    return l if not isinstance(l, CarryList) else TopV("tuple")


@fn("set", "frozenset")
def b_set(lib, it, args, kw, node):
    if not args:
        return SetV(ListVal([]))
    return SetV(it.as_list(args[0]))


@fn("dict")
def b_dict(lib, it, args, kw, node):
    d = DictVal()
    if args:
        s = resolve(args[0])
        c = it.get(s) if isinstance(s, Ref) else s
        if isinstance(c, DictVal):
            d = DictVal(c.writes, c.ext, c.removed)
        else:
            its = it.iter_spec(s)
            if its[0] != "items":
                return it.new(DictVal((), "unknown"))
            for x in its[1]:
                p = resolve(x)
                if not isinstance(p, tuple) or len(p) != 2:
                    return it.new(DictVal((), "unknown"))
                d = it.dict_set(d, resolve(p[0]), p[1])
    for k, v in kw.items():
        if k == "**":
            for s in v:
                c = it.get(s) if isinstance(s, Ref) else s
                if isinstance(c, DictVal):
                    d = DictVal(d.writes + c.writes, c.ext or d.ext, c.removed)
                else:
                    d = DictVal((), "unknown")
        else:
            d = it.dict_set(d, k, v)
    return it.new(d)


@fn("sum")
def b_sum(lib, it, args, kw, node):
    return distribute(args[0], lambda v: sum1(it, v, args[1] if len(args) > 1 else kw.get("start", ZERO)))


def sum1(it, v, start):
    if isinstance(v, (Ref, SubRef, ListVal, tuple, RangeV, Zip, Enum)) or isinstance(v, SetV):
        l = it.as_list(v)
        if isinstance(l, CarryList):
            return top("sum of carried list")
        if isinstance(l, WList):
            l = it.freeze_list(l)
            n = l.length()
            return t_sum(n, lambda j: ar.to_scalar(resolve(l.get(j)))) + start
        return sum_parts(it, it.freeze_list(l).parts, start)
    if isinstance(v, Arr):
        if v.kind == "np" and v.ndim == 1:
            return t_sum(v.shape[0], lambda j: v.f(j)) + start
        if v.kind == "np" and v.ndim > 1:
            return ar.reduce_axis(v, "sum", 0)
    raise Unsupported("sum of %r" % (v,))


def sum_parts(it, parts, start):
    s = start
    for p in parts:
        if isinstance(p, Item):
            s = it.binop("Add", s, p.v, None)
        elif isinstance(p, Comp):
            if len(p.parts) == 1 and isinstance(p.parts[0], Item):
                v = p.parts[0].v
                g = resolve(vsubst(v, p.v, ZERO if tm.CUR is not None else var0(p.v)))
                if isinstance(g, Arr) and ar.scalar_of(g) is None:
                    raise Unsupported("sum of arrays")
                s = it.binop("Add", s, t_sum(p.n, lambda j: ar.to_scalar(
                    vsubst(v, p.v, j))), None)
            else:
                s = it.binop("Add", s, t_sum(p.n, lambda j: ar.to_scalar(sum_parts(
                    it, [part_sub(q, p.v, j) for q in p.parts], ZERO))), None)
        elif isinstance(p, Opt):
            s = gate_lazy(p.c, lambda: sum_parts(it, p.a, s), lambda: sum_parts(it, p.b, s))
        elif isinstance(p, LazyParts):
            s0 = s
            s = it.binop("Add", s, lazy(lambda: ar.to_scalar(sum_parts(it, p.force(), ZERO))), None)
        else:
            raise Unsupported("sum")
    return s


def _minmax(op):
    def g(lib, it, args, kw, node):
        if "key" in kw:
            raise Unsupported("key function")
        if len(args) > 1:
            r = frz(it, args[0])
            for x in args[1:]:
                r = distribute_n([r, frz(it, x)], lambda p, q: t_fn(op, ar.to_scalar(p), ar.to_scalar(q))
                                 if not isinstance(p, TopV) and not isinstance(q, TopV) else top(op))
            return r

        def red(v):
            if isinstance(v, TopV):
                return top(op)
            if isinstance(v, Arr):
                return ar.reduce_all(v, op)
            if isinstance(v, SetV):
                v = v.lst
            l = it.freeze_list(it.as_list(v))
            its = flat_items(l.parts)
            if its is not None and its:
                r = ar.to_scalar(its[0])
                for x in its[1:]:
                    r = t_fn(op, r, ar.to_scalar(x))
                return r

            def run():
                xs = [ev(ar.to_scalar(x)) for x in expand_list(l)]
                if not xs:
                    raise tm.Undecided("%s of empty list" % op)
                return lift(max(xs) if op == "max" else min(xs))
            return lazy(run, ("red", op, ident_of(l)))
        return distribute(args[0], red)
    return g


FUNCS["max"] = _minmax("max")
FUNCS["min"] = _minmax("min")


def _anyall(op):
    def g(lib, it, args, kw, node):
        def red(v):
            if isinstance(v, TopV):
                return top(op)
            if isinstance(v, Arr):
                return boolred(v, op)
            l = it.freeze_list(it.as_list(v))
            its = flat_items(l.parts)
            if its is not None:
                r = TRUE if op == "all" else FALSE
                for x in its:
                    c = it.truthy(x)
                    r = t_and(r, c) if op == "all" else t_or(r, c)
                return r

            def run():
                xs = [ev(it.truthy(x)) for x in expand_list(l)]
                return lift((all if op == "all" else any)(bool(x) for x in xs))
            return lazy(run, ("red", op, ident_of(l)))
        return distribute(args[0], red)
    return g


def boolred(v, op):
    v = ar.np_array(v)
    if isinstance(v, T):
        return v
    return ar.reduce_all(v, op)


FUNCS["any"] = _anyall("any")
FUNCS["all"] = _anyall("all")


@simple("abs", "np.abs", "np.fabs", "np.absolute", "ca.fabs", "math.fabs")
def b_abs(it, v):
    return ar.map1(lambda x: t_fn("abs", x), ar.as_num(v))


@simple("int")
def b_int(it, v=ZERO):
    if isinstance(v, str):
        return top("int")
    t = ar.to_scalar(ar.as_num(v))
    if t.is_const() and float(t.const()) == int(t.const()):
        return lift(int(t.const()))
    if ip.is_bool(t):
        return t
    return t_fn("int", t)


@simple("float", "np.float64")
def b_float(it, v=ZERO):
    if isinstance(v, str):
        return {"inf": tm.INF, "-inf": -tm.INF}.get(v, top("float"))
    return ar.to_scalar(ar.as_num(v))


@simple("bool")
def b_bool(it, v=FALSE):
    return it.truthy(v)


@fn("str", "repr", "format")
def b_str(lib, it, args, kw, node):
    return ip.str_join([args[0]]) if args else ""


@simple("round")
def b_round(it, v, n=ZERO):
    t = ar.to_scalar(ar.as_num(v))
    return t_fn("round", t)


@fn("print")
def b_print(lib, it, args, kw, node):
    return None


@fn("isinstance")
def b_isinstance(lib, it, args, kw, node):
    types = resolve(args[1])
    types = types if isinstance(types, tuple) else (types,)
    names = [getattr(t, "name", "?") for t in types]

    def run(v):
        k = kind_of(it, v)
        if k is None:
            return top("isinstance")
        if isinstance(v, Ref) and isinstance(it.get(v), ObjC):
            mro = it.mod.mro(it.get(v).cls)
            return TRUE if any(n in mro for n in names) else FALSE
        return TRUE if any(n in k for n in names) else FALSE
    return distribute(args[0], run)


def kind_of(it, v):
    v = resolve(v)
    if isinstance(v, Ref):
        c = it.get(v)
        return {"list"} if isinstance(c, ListVal) else ({"dict"} if isinstance(c, DictVal) else {"object"})
    if isinstance(v, SubRef):
        return {"list"} if isinstance(v.val, ListVal) else {"dict"}
    if isinstance(v, ListVal):
        return {"list"}
    if isinstance(v, tuple):
        return {"tuple"}
    if isinstance(v, str):
        return {"str"}
    if v is None:
        return {"None"}
    if isinstance(v, Arr):
        if v.kind == "np":
            return {"np.ndarray"}
        return {"ca.SX", "ca.DM", "ca.MX"}
    if isinstance(v, RangeV):
        return {"range"}
    if isinstance(v, T):
        t = getattr(it, "intsyms", None)
        return {"int"} if tm.lower(v) is not None else None
    return None


@fn("hasattr")
def b_hasattr(lib, it, args, kw, node):
    o, n = resolve(args[0]), resolve(args[1])
    if isinstance(o, Ref) and isinstance(it.get(o), ObjC) and isinstance(n, str):
        c = it.get(o)
        n = it.attr_name(n) if False else n
        if n in c.attrs:
            v = c.attrs[n]
            if isinstance(v, Undef):
                return FALSE
            if isinstance(v, Gated):
                a, b = resolve(v.a), resolve(v.b)
                if isinstance(a, Undef):
                    return t_not(v.c)
                if isinstance(b, Undef):
                    return v.c
            return TRUE
        if it.mod.find(c.cls, n)[1] is not None:
            return TRUE
        return FALSE
    return top("hasattr")


@fn("getattr")
def b_getattr(lib, it, args, kw, node):
    n = resolve(args[1])
    if not isinstance(n, str):
        return TopV("getattr")
    if len(args) == 3:
        h = b_hasattr(lib, it, args[:2], {}, node)
        k = decide(h)
        if k is False:
            return args[2]
        if k is None:
            return TopV("getattr")
    return it.getattr(args[0], n, node)


@fn("setattr")
def b_setattr(lib, it, args, kw, node):
    n = resolve(args[1])
    if not isinstance(n, str):
        raise Unsupported("setattr")
    it.set_attr(resolve(args[0]), n, args[2], node)


@fn("super")
def b_super(lib, it, args, kw, node):
    fr = it.get(it.frames[-1])
    f = it.frames[-1]
    while fr is not None and (fr.cls is None or "self" not in fr.vars) and fr.parent is not None:
        f = fr.parent
        fr = it.get(f)
    names = list(fr.vars)
    obj = fr.vars.get("self", fr.vars[names[0]] if names else None)
    o = it.get(obj) if isinstance(obj, Ref) else None
    return SuperV(fr.cls, obj, o.cls if o is not None else fr.cls)


@fn("type")
def b_type(lib, it, args, kw, node):
    o = resolve(args[0])
    if isinstance(o, Ref) and isinstance(it.get(o), ObjC):
        return ClassVal(it.get(o).cls)
    return TopV("type")


@fn("map")
def b_map(lib, it, args, kw, node):
    f = args[0]
    if len(args) != 2:
        its = [it.as_list(a) for a in args[1:]]
        fl = [flat_items(l.parts) for l in its]
        if any(x is None for x in fl):
            raise Unsupported("map over several lists")
        return it.new(ListVal([Item(it.freeze(it.call(f, list(xs), {}, node))) for xs in zip(*fl)]))
    target = it.new(ListVal([]))
    slot = []

    def bindf(v):
        slot[:] = [v]

    def body():
        it.list_append(target, it.freeze(it.call(f, [slot[0]], {}, node)))
        return ip.Fall(it.st)
    it.for_over(it.iter_spec(resolve(args[1])), bindf, body, node)
    return target


def sorted_list(it, l, kw, node):
    """the elements of l in ascending order of the key (stable)"""
    key = kw.get("key")
    rev = resolve(kw.get("reverse", tm.FALSE))
    if key is not None and resolve(key) is None:
        key = None
    if set(kw) - {"key", "reverse"} or not (isinstance(rev, T) and rev.is_const()):
        raise Unsupported("sort order")

    def run():
        xs = list(expand_list(l))

        def k(x):
            if key is not None:
                x = it.freeze(it.call(key, [x], {}, node))
            return ev(ar.to_scalar(x))
        ks = [(k(x), n) for n, x in enumerate(xs)]
        o = sorted(ks, key=lambda q: q[0], reverse=bool(rev.const()))
        return [xs[n] for _, n in o]
    g = ar.elem_generic(l)
    if isinstance(g, T) or isinstance(g, tuple) and all(isinstance(resolve(x), T) for x in g):
        v = fresh("w")
        at = lambda sel: lazy(lambda: ev(ar.to_scalar(sel(run()[int(ev(var0(v)))]))))
        if isinstance(g, T):
            x = at(lambda e: e)
        else:
            x = tuple(at(lambda e, m=m: resolve(e)[m]) for m in range(len(g)))
        return ListVal([Comp(v, l.length(), [Item(x)])])
    return ListVal([LazyParts(lambda: [Item(x) for x in run()])])


@fn("sorted")
def b_sorted(lib, it, args, kw, node):
    return it.new(sorted_list(it, it.freeze_list(it.as_list(args[0])), kw, node))


@fn("itertools.groupby")
def it_groupby(lib, it, args, kw, node):
    """runs of consecutive elements with equal keys: (key, elements) pairs"""
    l = it.freeze_list(it.as_list(args[0]))
    key = args[1] if len(args) > 1 else kw.get("key")
    n = l.length()

    def keyat(i):
        x = l.get(i)
        return ar.to_scalar(it.freeze(it.call(key, [x], {}, node)) if key is not None else x)
    w = fresh("w")
    gen = keyat(var0(w))

    def starts():
        m = int(ev(n))
        ks = [ev(gen.subst(w, lift(i))) for i in range(m)]
        return [i for i in range(m) if i == 0 or ks[i] != ks[i - 1]] + [m]
    v = fresh("w")
    count = lazy(lambda: len(starts()) - 1)
    at = lambda d: lazy(lambda: starts()[int(ev(var0(v))) + d])
    s0, s1 = at(0), at(1)
    u = fresh("w")
    group = ListVal([Comp(u, s1 - s0, [Item(l.get(s0 + var0(u)))])])
    return ListVal([Comp(v, count, [Item((gen.subst(w, s0), group))])])


@fn("id", "hash")
def b_id(lib, it, args, kw, node):
    return top("id")


# exceptions and misc
for _e in ("Exception ValueError TypeError KeyError IndexError AssertionError NotImplementedError "
           "RuntimeError AttributeError object UserWarning").split():
    FUNCS[_e] = lambda lib, it, args, kw, node: TopV("exception")


# time, copy ----------------------------------------------------------------
@fn("time.monotonic", "time.time", "time.perf_counter", "time.process_time")
def t_time(lib, it, args, kw, node):
    return top("time")


@fn("copy.deepcopy", "copy.copy")
def c_deepcopy(lib, it, args, kw, node):
    return deepcopy(it, args[0], {})


def deepcopy(it, v, memo):
    if isinstance(v, Ref):
        if v.cell in memo:
            return memo[v.cell]
        c = it.get(v)
        if isinstance(c, ObjC):
            r = it.new(ObjC(c.cls, {}, None))
            memo[v.cell] = r
            it.put(r, ObjC(c.cls, {k: deepcopy(it, x, memo) for k, x in c.attrs.items()}, None))
            return r
        if isinstance(c, ListVal):
            if isinstance(c, (WList, CarryList)):
                return it.new(c)
            r = it.new(ListVal([]))
            memo[v.cell] = r
            it.put(r, ListVal([Item(deepcopy(it, p.v, memo)) if isinstance(p, Item) else p for p in c.parts]))
            return r
        if isinstance(c, DictVal):
            r = it.new(DictVal())
            memo[v.cell] = r
            it.put(r, DictVal([(w[0], w[1], w[2], deepcopy(it, w[3], memo)) for w in c.writes], c.ext, c.removed))
            return r
        return v
    if isinstance(v, Gated):
        return Gated(v.c, deepcopy(it, v.a, memo), deepcopy(it, v.b, memo))
    if isinstance(v, tuple):
        return tuple(deepcopy(it, x, memo) for x in v)
    if isinstance(v, SubRef):
        return it.new(v.val) if isinstance(v.val, (ListVal, DictVal)) else v.val
    return v


# lists / dicts / strings -----------------------------------------------------
def target_list(it, s):
    s = resolve(s)
    if isinstance(s, Ref):
        return s
    raise Unsupported("method on list value")


@meth("list", "append")
def l_append(lib, it, s, args, kw, node):
    if isinstance(s, SubRef):
        v = s.val
        it.write_sub(s, ListVal(tuple(v.parts) + (Item(it.freeze(args[0])),)))
        return None
    it.list_append(target_list(it, s), args[0])


@meth("list", "extend")
def l_extend(lib, it, s, args, kw, node):
    it.list_extend(target_list(it, s), args[0])


@meth("list", "insert")
def l_insert(lib, it, s, args, kw, node):
    r = target_list(it, s)
    c = it.get(r)
    i = resolve(args[0])
    if isinstance(i, T) and i.is_const() and i.const() == 0 and not isinstance(c, (WList, CarryList)):
        it.put(r, ListVal((Item(args[1]),) + tuple(c.parts)))
        return None
    raise Unsupported("insert")


@meth("list", "copy")
def l_copy(lib, it, s, args, kw, node):
    c = it.list_content(s)
    return it.new(c)


@meth("list", "reverse", "pop", "remove", "clear")
def l_mut(lib, it, s, args, kw, node):
    r = target_list(it, s)
    it.put(r, ListVal([Comp(fresh("w"), top("len"), [Item(TopV("list mutated"))])]))
    return TopV("list mutated")


@meth("list", "sort")
def l_sort(lib, it, s, args, kw, node):
    r = target_list(it, s)
    it.put(r, sorted_list(it, it.freeze_list(it.get(r)), kw, node))
    return None


@meth("list", "index", "count")
def l_index(lib, it, s, args, kw, node):
    return top("list.index")


@meth("dict", "pop")
def d_pop(lib, it, s, args, kw, node):
    k = resolve(args[0])
    c = it.get(s) if isinstance(s, Ref) else s
    p, v = it.dict_get(c, k)
    it.dict_remove(s, k)
    if len(args) > 1:
        return gate(p, v, args[1])
    return v


@meth("dict", "get")
def d_get(lib, it, s, args, kw, node):
    c = it.get(s) if isinstance(s, Ref) else (s.val if isinstance(s, SubRef) else s)
    p, v = it.dict_get(c, resolve(args[0]))
    return gate(p, v, args[1] if len(args) > 1 else None)


@meth("dict", "setdefault")
def d_setdefault(lib, it, s, args, kw, node):
    c = it.get(s)
    k = resolve(args[0])
    p, v = it.dict_get(c, k)
    v = gate(p, v, args[1] if len(args) > 1 else None)
    it.put(s, it.dict_set(c, k, v))
    return v


@meth("dict", "copy")
def d_copy(lib, it, s, args, kw, node):
    c = it.get(s) if isinstance(s, Ref) else s
    return it.new(DictVal(c.writes, c.ext, c.removed))


@meth("dict", "update")
def d_update(lib, it, s, args, kw, node):
    c = it.get(s)
    if args:
        o = resolve(args[0])
        if isinstance(o, Gated):
            raise Unsupported("update")
        oc = it.get(o) if isinstance(o, Ref) else o
        if isinstance(oc, DictVal):
            for w in oc.writes:
                c = it.dict_set(c, w[2], w[3]) if isinstance(w[2], str) and not w[0] and w[1] == TRUE \
                    else DictVal(c.writes + (w,), c.ext, c.removed)
            if oc.ext is not None:
                c = DictVal(((), TRUE, "**" + oc.ext, None) and c.writes, c.ext, c.removed)
                c = overlay(c, oc)
        else:
            c = DictVal((), "unknown")
    for k, v in kw.items():
        if k != "**":
            c = it.dict_set(c, k, v)
    it.put(s, c)


def overlay(c, oc):
    """c updated by all entries of the external dictionary oc"""
    return DictVal(tuple(c.writes) + (((), TRUE, ip.ExtStr("all:" + oc.ext), TopV(oc.ext)),), c.ext, c.removed)


@meth("dict", "keys")
def d_keys(lib, it, s, args, kw, node):
    return s


@meth("dict", "values")
def d_values(lib, it, s, args, kw, node):
    c = it.get(s) if isinstance(s, Ref) else s
    if c.ext is None and all(not w[0] and w[1] == TRUE for w in c.writes):
        return it.new(ListVal([Item(w[3]) for w in c.writes]))
    return it.new(ListVal([Comp(fresh("w"), top("len"), [Item(TopV("dict value"))])]))


@meth("dict", "items")
def d_items(lib, it, s, args, kw, node):
    c = it.get(s) if isinstance(s, Ref) else s
    if c.ext is None and all(not w[0] and w[1] == TRUE for w in c.writes):
        return it.new(ListVal([Item((w[2], w[3])) for w in c.writes]))
    if c.ext is not None and not c.writes:
        # generic entry of an external dictionary
        w = fresh("w")
        return it.new(ListVal([Comp(w, sym("len_" + c.ext), [Item((StrT(("extkey:" + c.ext, var0(w))),
                                                                   ExtItem(c.ext, var0(w))))])]))
    return TopV("dict items")


class ExtItem(Model):
    def __init__(self, ext, i):
        self.ext, self.i = ext, i

    def subst(self, v, t):
        return ExtItem(self.ext, self.i.subst(v, t))


def chain_parts(it, v):
    """the parts of a list of lists, one level flattened; None when the lists are not known"""
    v = resolve(it.freeze(v))
    if isinstance(v, tuple):
        v = ListVal([Item(x) for x in v])
    if not isinstance(v, ListVal) or v.base is not None:
        return None
    out = []
    for p in v.parts:
        if isinstance(p, Comp):
            inner = []
            for q in p.parts:
                r = resolve(q.v) if isinstance(q, Item) else None
                if isinstance(r, tuple):
                    r = ListVal([Item(x) for x in r])
                if not isinstance(r, ListVal) or r.base is not None:
                    return None
                inner += list(r.parts)
            out.append(Comp(p.v, p.n, inner))
        else:
            r = resolve(it.freeze(p.v))
            if isinstance(r, tuple):
                r = ListVal([Item(x) for x in r])
            if isinstance(r, RangeV):
                w = fresh("w")
                r = ListVal([Comp(w, r.n, [Item(r.lo + r.step * var0(w))])])
            if not isinstance(r, ListVal) or r.base is not None:
                return None
            out += list(r.parts)
    return out


@fn("itertools.chain")
def f_chain(lib, it, args, kw, node):
    out = []
    for a in args:
        ps = chain_parts(it, a.v if isinstance(a, Splat) else (a,))
        if ps is None:
            return TopV("itertools.chain")
        out += ps
    return it.new(ListVal(out))


@fn("itertools.chain.from_iterable")
def f_chain2(lib, it, args, kw, node):
    ps = chain_parts(it, args[0])
    return TopV("itertools.chain") if ps is None else it.new(ListVal(ps))


@meth("str", "format")
def s_format(lib, it, s, args, kw, node):
    if not isinstance(s, str) or kw:
        return TopV("format")
    parts = s.split("{}")
    if len(parts) == len(args) + 1:
        out = [parts[0]]
        for a, p in zip(args, parts[1:]):
            out += [a, p]
        return ip.str_join(out)
    m = s
    if all("{%d}" % k in s for k in range(len(args))) and len(args) == 1:
        x = s.split("{0}")
        out = [x[0]]
        for p in x[1:]:
            out += [args[0], p]
        return ip.str_join(out)
    return TopV("format")


@meth("str", "join", "lower", "upper", "strip", "split", "replace", "startswith", "endswith", "title", "capitalize")
def s_misc(lib, it, s, args, kw, node):
    return TopV("string")


# numpy -----------------------------------------------------------------------
@simple("np.array", "np.asarray", "np.asanyarray", "np.float_")
def np_array_(it, v, dtype=None, copy=None, ndmin=None):
    r = ar.np_array(v)
    return r


@simple("np.atleast_1d")
def np_atleast(it, v):
    r = ar.np_array(v)
    return Arr("np", (ONE,), lambda i: r) if isinstance(r, T) else r


@simple("np.concatenate")
def np_concatenate(it, v, axis=ZERO):
    if axis is None:
        raise Unsupported("axis None")
    return ar.concatenate(v, int(axis.const()))


@simple("np.hstack")
def np_hstack(it, v):
    if isinstance(v, Arr):
        v = ListVal([Comp("hw", v.shape[0], [Item(Arr("np", v.shape[1:], lambda *i: v.f(var0("hw"), *i)))])]) \
            if False else v
        return np_hstack_arr(v)
    l = v if isinstance(v, ListVal) else ListVal([Item(x) for x in v])
    nd = ar.rank_of_parts(l.parts)
    if nd is None:
        # list of scalars
        return ar.np_array(l)
    return ar.stack_parts(l.parts, atleast1(nd), 0 if nd == 1 else 1, "np", nd)


def np_hstack_arr(a):
    if a.ndim == 1:
        return a
    if a.ndim == 2:
        return ar.flatten(ar.np_array(a), "C")
    raise Unsupported("hstack")


def atleast1(nd):
    b0 = ar.np_block(nd)

    def b(v):
        v = resolve(v)
        if isinstance(v, T):
            return Arr("np", (ONE,), lambda i: v)
        return b0(v)
    return b


@simple("np.vstack", "np.row_stack")
def np_vstack(it, v):
    if isinstance(v, Arr):
        return ar.np_array(v)
    l = v if isinstance(v, ListVal) else ListVal([Item(x) for x in v])

    def block(x):
        x = resolve(x)
        a = ar.np_array(x)
        if isinstance(a, T):
            return Arr("np", (ONE, ONE), lambda i, j: a)
        if a.ndim == 1:
            return Arr("np", (ONE, a.shape[0]), lambda i, j: a.f(j))
        return a
    nd = ar.rank_of_parts(l.parts) or 1
    return ar.stack_parts(l.parts, block, 0, "np", max(nd, 2))


@simple("np.append")
def np_append(it, a, b, axis=None):
    def one(v):
        v = ar.np_array(v)
        if isinstance(v, T):
            return Arr("np", (ONE,), lambda i: v)
        return ar.flatten(v, "C") if v.ndim != 1 else v
    if axis is not None:
        return ar.concatenate(ListVal([Item(a), Item(b)]), int(axis.const()))
    x, y = one(a), one(b)
    return ar.stack_parts((Item(x), Item(y)), ar.np_block(1), 0, "np", 1)


@simple("np.cumsum")
def np_cumsum(it, a, axis=None):
    v = ar.np_array(a)
    v = ar.flatten(v, "C") if v.ndim != 1 else v
    # summed term by term, as numpy does: a ratio of equal sums is exactly one
    return Arr("np", v.shape, lambda i: lazy(
        lambda: sum(ev(v.f(lift(j))) for j in range(int(ev(i)) + 1))))


@simple("np.repeat")
def np_repeat(it, a, n, axis=None):
    a = a if isinstance(a, T) else ar.np_array(a)
    return ar.repeat(a, ar.to_scalar(n), axis)


@simple("np.tile")
def np_tile(it, a, reps):
    if isinstance(reps, (ListVal,)):
        reps = tuple(flat_items(reps.parts))
    return ar.tile(a, reps)


@simple("np.full")
def np_full(it, shape, v, dtype=None):
    sh = shape if isinstance(shape, tuple) else (tuple(flat_items(shape.parts)) if isinstance(shape, ListVal) else (shape,))
    v = ar.np_array(v)
    if isinstance(v, Arr):
        off = len(sh) - v.ndim
        return Arr("np", sh, lambda *i: v.f(*i[off:]))
    return ar.const_arr("np", sh, v)


def shape_of(sh):
    if isinstance(sh, tuple):
        return tuple(ar.to_scalar(x) for x in sh)
    if isinstance(sh, ListVal):
        return tuple(ar.to_scalar(x) for x in flat_items(sh.parts))
    return (ar.to_scalar(sh),)


@simple("np.zeros", "np.empty")
def np_zeros(it, sh, dtype=None):
    return ar.const_arr("np", shape_of(sh), ZERO)


@simple("np.ones")
def np_ones(it, sh, dtype=None):
    return ar.const_arr("np", shape_of(sh), ONE)


@simple("np.zeros_like")
def np_zeros_like(it, v, dtype=None):
    a = ar.np_array(v)
    return ZERO if isinstance(a, T) else ar.const_arr("np", a.shape, ZERO)


@simple("np.ones_like")
def np_ones_like(it, v, dtype=None):
    a = ar.np_array(v)
    return ONE if isinstance(a, T) else ar.const_arr("np", a.shape, ONE)


@simple("np.full_like")
def np_full_like(it, v, x, dtype=None):
    a = ar.np_array(v)
    return x if isinstance(a, T) else ar.const_arr("np", a.shape, ar.to_scalar(x))


@simple("np.eye", "np.identity")
def np_eye(it, n):
    return ar.eye(n, "np")


@simple("ca.DM.eye", "ca.SX.eye", "ca.MX.eye")
def ca_eye(it, n):
    return ar.eye(n, "ca")


@simple("np.arange")
def np_arange(it, a, b=None, step=ONE):
    lo, hi = (ZERO, a) if b is None else (a, b)
    if step == ONE:
        return Arr("np", (hi - lo,), lambda i: lo + i)
    raise Unsupported("arange step")


@simple("np.linspace")
def np_linspace(it, a, b, num=None):
    num = lift(50) if num is None else num
    a = a if isinstance(a, T) else ar.as_num(a)
    b = b if isinstance(b, T) else ar.as_num(b)
    return ar.linspace(a, b, ar.to_scalar(num))


@simple("np.dot", "np.matmul")
def np_dot_(it, a, b):
    return ar.np_dot(ar.as_num(a), ar.as_num(b))


@simple("np.multiply")
def np_mult(it, a, b):
    return ar.elementwise(ar.ARITH["Mult"], ar.as_num(a), ar.as_num(b))


@simple("np.divide", "np.true_divide")
def np_div(it, a, b):
    return ar.elementwise(ar.ARITH["Div"], ar.as_num(a), ar.as_num(b))


@simple("np.add")
def np_add(it, a, b):
    return ar.elementwise(ar.ARITH["Add"], ar.as_num(a), ar.as_num(b))


@simple("np.subtract")
def np_sub(it, a, b):
    return ar.elementwise(ar.ARITH["Sub"], ar.as_num(a), ar.as_num(b))


@simple("np.negative")
def np_neg(it, a):
    return ar.map1(lambda x: -x, ar.as_num(a))


@simple("np.mod", "np.remainder")
def np_mod(it, a, b):
    return ar.elementwise(tm.t_mod, ar.as_num(a), ar.as_num(b))


@simple("np.transpose")
def np_transpose(it, a):
    return ar.transpose(ar.np_array(a))


@simple("np.ravel")
def np_ravel(it, a, order="C"):
    return ar.flatten(ar.np_array(a), order)


@simple("np.reshape")
def np_reshape(it, a, shape, order="C"):
    return ar.reshape(ar.np_array(a), shape_of(shape), order)


@simple("np.squeeze")
def np_squeeze(it, a):
    a = ar.np_array(a)
    return ar.reshape(a, [s for s in a.shape if s != ONE]) if isinstance(a, Arr) else a


@simple("np.diff")
def np_diff(it, a):
    a = ar.np_array(a)
    if a.ndim != 1:
        raise Unsupported("diff")
    return Arr("np", (a.shape[0] - ONE,), lambda i: a.f(i + ONE) - a.f(i))


@simple("np.minimum")
def np_minimum(it, a, b):
    return ar.elementwise(lambda x, y: t_fn("min", x, y), ar.as_num(a), ar.as_num(b))


@simple("np.maximum")
def np_maximum(it, a, b):
    return ar.elementwise(lambda x, y: t_fn("max", x, y), ar.as_num(a), ar.as_num(b))


@simple("np.clip")
def np_clip(it, a, lo, hi):
    r = ar.elementwise(lambda x, y: t_fn("max", x, y), ar.as_num(a), ar.as_num(lo))
    return ar.elementwise(lambda x, y: t_fn("min", x, y), r, ar.as_num(hi))


@simple("np.where")
def np_where(it, c, a, b):
    c, a, b = ar.as_num(c), ar.as_num(a), ar.as_num(b)
    x = ar.elementwise(lambda p, q: (p, q), a, b) if False else None
    if isinstance(c, Arr):
        def pick(v):
            if isinstance(v, T):
                return lambda *i: v
            if v.ndim != c.ndim:
                raise Unsupported("where")
            return v.f
        fa, fb = pick(a), pick(b)
        return Arr("np", c.shape, lambda *i: ite_lazy(c.f(*i), lambda: fa(*i), lambda: fb(*i)))
    return gate(c, a, b)


@simple("np.isfinite")
def np_isfinite(it, a):
    r = ar.map1(lambda x: t_and(t_lt(x, tm.INF), t_lt(-tm.INF, x)), ar.as_num(a))
    if isinstance(r, Arr):
        r.isbool = True
    return r


@simple("np.isinf")
def np_isinf(it, a):
    r = ar.map1(lambda x: t_not(t_and(t_lt(x, tm.INF), t_lt(-tm.INF, x))), ar.as_num(a))
    if isinstance(r, Arr):
        r.isbool = True
    return r


def _np_red(op):
    def f(it, a, axis=None, keepdims=None):
        a = ar.as_num(a)
        if isinstance(a, Arr) and a.kind == "ca":
            a = ar.np_array(a)
        if axis is None:
            return ar.reduce_all(a, op)
        return ar.reduce_axis(a, op, int(axis.const()))
    return f


for _n in "sum max min any all mean argmax argmin".split():
    FUNCS["np." + _n] = pure(_np_red(_n))
    METHODS[("arr", _n)] = (lambda op: lambda lib, it, s, args, kw, node: pure(_np_red(op))(
        lib, it, [s] + args, kw, node))(_n)
FUNCS["np.amax"] = FUNCS["np.max"]
FUNCS["np.amin"] = FUNCS["np.min"]


@simple("np.linalg.norm")
def np_norm(it, a, ord=None, axis=None):
    a = ar.np_array(a)
    op = "norm"
    if ord is not None and not (isinstance(ord, T) and ord.is_const() and ord.const() == 2 and (a.ndim == 1 or axis is not None)):
        if a.ndim != 1 and axis is None:
            raise Unsupported("matrix norm order")
        if not (isinstance(ord, T) and ord.is_const() and ord.const() == 1):
            raise Unsupported("norm order")
        op = "sum"
        a = ar.map1(lambda x: t_fn("abs", x), a)
    if axis is None:
        return ar.reduce_all(a, op)
    return ar.reduce_axis(a, op, int(axis.const()))


@simple("np.cos", "math.cos", "ca.cos")
def np_cos(it, a):
    return ar.map1(lambda x: t_fn("cos", x), ar.as_num(a))


@simple("np.sin", "math.sin", "ca.sin")
def np_sin(it, a):
    return ar.map1(lambda x: t_fn("sin", x), ar.as_num(a))


@simple("np.sqrt", "math.sqrt", "ca.sqrt")
def np_sqrt(it, a):
    return ar.map1(lambda x: t_fn("sqrt", x), ar.as_num(a))


@simple("math.floor", "np.floor")
def np_floor(it, a):
    return ar.map1(lambda x: t_fn("floor", x), ar.as_num(a))


@simple("math.ceil", "np.ceil")
def np_ceil(it, a):
    return ar.map1(lambda x: t_fn("ceil", x), ar.as_num(a))


# array methods -------------------------------------------------------------
def arrmeth(*names):
    def d(f):
        for n in names:
            METHODS[("arr", n)] = (lambda lib, it, s, args, kw, node, f=f:
                                   pure(f)(lib, it, [s] + list(args), kw, node))
        return f
    return d


@arrmeth("full", "toarray")
def a_full(it, a):
    a = ar.as_ca(a)
    return Arr("np", a.shape, a.f)


@arrmeth("copy", "astype")
def a_copy(it, a, dtype=None):
    return a


@arrmeth("tolist")
def a_tolist(it, a):
    if isinstance(a, T):
        return a
    if a.ndim == 1:
        w = fresh("w")
        return it.new(ListVal([Comp(w, a.shape[0], [Item(a.f(var0(w)))])]))
    raise Unsupported("tolist")


@arrmeth("size1", "rows")
def a_size1(it, a):
    return ar.as_ca(a).shape[0]


@arrmeth("size2", "columns")
def a_size2(it, a):
    return ar.as_ca(a).shape[1]


@arrmeth("numel")
def a_numel(it, a):
    return ar.size_of(ar.as_ca(a))


@arrmeth("size")
def a_size(it, a, k=None):
    a = ar.as_ca(a)
    if k is None:
        return tuple(a.shape)
    return a.shape[int(k.const()) - 1]


@arrmeth("reshape")
def a_reshape(it, a, *shape, order="C"):
    if isinstance(a, Arr) and a.kind == "ca":
        raise Unsupported("casadi reshape")
    if len(shape) == 1:
        shape = shape_of(shape[0])
    a = ar.np_array(a)
    return ar.reshape(a, tuple(ar.to_scalar(s) for s in shape), order)


@arrmeth("flatten", "ravel")
def a_flatten(it, a, order="C"):
    return ar.flatten(ar.np_array(a), order)


@arrmeth("transpose")
def a_transpose(it, a):
    return ar.transpose(a)


@arrmeth("dot")
def a_dot(it, a, b):
    return ar.np_dot(ar.as_num(a), ar.as_num(b))


@arrmeth("item")
def a_item(it, a):
    return ar.to_scalar(a)


@arrmeth("repeat")
def a_repeat(it, a, n, axis=None):
    return ar.repeat(a, ar.to_scalar(n), axis)


@arrmeth("cumsum")
def a_cumsum(it, a, axis=None):
    return np_cumsum(it, a, axis)


@arrmeth("squeeze")
def a_squeeze(it, a):
    return np_squeeze(it, a)


@meth("arr", "sort", "fill")
def a_mut(lib, it, s, args, kw, node):
    it.event("inplace", node, target=s)
    return TopV("in place")


# casadi ------------------------------------------------------------------------
@fn("ca.SX.sym", "ca.MX.sym")
def ca_sym(lib, it, args, kw, node):
    name = resolve(args[0])
    if not isinstance(name, str):
        return TopV("symbol name")
    dims = [frz(it, a) for a in it.flat_args(args[1:])]
    if len(dims) == 1 and isinstance(dims[0], (tuple, ListVal)):
        dims = list(shape_of(dims[0]))
    dims = [ar.to_scalar(d) for d in dims]
    tm_name = lib.cfg.symname(it, name, len(dims))
    if len(dims) == 0:
        return Arr("ca", (ONE, ONE), lambda i, j: sym(tm_name))
    if len(dims) == 1:
        return Arr("ca", (dims[0], ONE), lambda i, j: sym(tm_name, i))
    if len(dims) == 2:
        return Arr("ca", tuple(dims), lambda i, j: sym(tm_name, i, j))
    w = fresh("w")
    return it.new(ListVal([Comp(w, dims[2], [Item(sym3(tm_name, dims[0], dims[1], var0(w)))])]))


def sym3(name, n, m, p):
    return Arr("ca", (n, m), lambda i, j: sym(name, p, i, j))


def _starlist(it, args):
    """list parts of a variadic call"""
    parts = []
    for a in args:
        if isinstance(a, Splat):
            l = it.as_list(a.v)
            parts += list(it.freeze_list(l).parts)
        else:
            parts.append(Item(it.freeze(a)))
    return parts


@fn("ca.vertcat", "ca.veccat")
def ca_vertcat(lib, it, args, kw, node):
    parts = _starlist(it, args)
    if len(parts) == 1 and isinstance(parts[0], Item):
        # vertcat(value): list arguments are columns
        return distribute(parts[0].v, lambda v: cat1(v))
    return ar.vertcat(parts)


def cat1(v):
    if isinstance(v, TopV):
        return v
    if isinstance(v, ListVal):
        return ar.ca_block(v)
    return ar.as_ca(v)


@fn("ca.horzcat")
def ca_horzcat(lib, it, args, kw, node):
    return ar.horzcat(_starlist(it, args))


@simple("ca.vec")
def ca_vec(it, a):
    return ar.flatten(ar.as_ca(a), "F", column=True)


@simple("ca.reshape")
def ca_reshape(it, a, n, m):
    return ar.reshape(ar.as_ca(a), (ar.to_scalar(n), ar.to_scalar(m)), "F")


@simple("ca.transpose")
def ca_transpose(it, a):
    return ar.transpose(ar.as_ca(a))


@simple("ca.mtimes", "ca.dot")
def ca_mtimes(it, a, b=None):
    if b is None:
        its = flat_items(a.parts)
        r = its[0]
        for x in its[1:]:
            r = ar.mtimes(ar.as_num(r), ar.as_num(x))
        return r
    return ar.mtimes(ar.as_num(a), ar.as_num(b))


@simple("ca.kron")
def ca_kron(it, a, b):
    return ar.kron(ar.as_ca(a), ar.as_ca(b), "ca")


@simple("np.kron")
def np_kron(it, a, b):
    return ar.kron(ar.np_array(a), ar.np_array(b), "np")


@simple("ca.diag")
def ca_diag(it, a):
    return ar.diag(a)


@simple("np.diag")
def np_diag(it, a):
    a = ar.np_array(a)
    if a.ndim == 1:
        r = ar.diag(a)
        q = Arr("np", r.shape, r.f)
        q.diag = r.diag
        return q
    return Arr("np", (a.shape[0],), lambda i: a.f(i, i))


@simple("ca.solve")
def ca_solve(it, a, b):
    return ar.ca_solve(a, b)


@simple("ca.inv", "np.linalg.inv", "ca.pinv")
def ca_inv(it, a):
    a = ar.as_ca(a)
    return ar.ca_solve(a, ar.eye(a.shape[0], "np"))


@simple("ca.DM", "ca.SX", "ca.MX")
def ca_dm(it, v=None, m=None):
    if m is not None:
        return ar.const_arr("ca", (v, m), ZERO)
    if isinstance(v, (str,)) or v is None:
        raise Unsupported("DM")
    return ar.as_ca(v)


@simple("ca.DM.zeros", "ca.SX.zeros", "ca.MX.zeros", "ca.SX")
def ca_zeros(it, n=ONE, m=ONE):
    if isinstance(n, (tuple, ListVal)):
        n, m = shape_of(n)
    if isinstance(n, Arr):
        return n
    return ar.const_arr("ca", (n, m), ZERO)


FUNCS["ca.SX"] = FUNCS["ca.DM"]


@simple("ca.DM.ones", "ca.SX.ones")
def ca_ones(it, n=ONE, m=ONE):
    if isinstance(n, (tuple, ListVal)):
        n, m = shape_of(n)
    return ar.const_arr("ca", (n, m), ONE)


@simple("ca.repmat")
def ca_repmat(it, a, n, m=ONE):
    a = ar.as_ca(a)
    return Arr("ca", (a.shape[0] * n, a.shape[1] * m),
               lambda i, j: a.f(tm.t_mod(i, a.shape[0]), tm.t_mod(j, a.shape[1])))


@simple("ca.sum1")
def ca_sum1(it, a):
    a = ar.as_ca(a)
    return Arr("ca", (ONE, a.shape[1]), lambda i, j: t_sum(a.shape[0], lambda k: a.f(k, j)))


@simple("ca.sum2")
def ca_sum2(it, a):
    a = ar.as_ca(a)
    return Arr("ca", (a.shape[0], ONE), lambda i, j: t_sum(a.shape[1], lambda k: a.f(i, k)))


@simple("ca.fmax")
def ca_fmax(it, a, b):
    return np_maximum(it, a, b)


@fn("ca.Function")
def ca_function(lib, it, args, kw, node):
    args = [it.freeze(a) for a in it.flat_args(args)]
    if len(args) < 3:
        return TopV("casadi Function")
    ins = it.as_list(args[1])
    outs = it.as_list(args[2])
    i, o = flat_items(ins.parts), flat_items(outs.parts)
    if i is None or o is None:
        return TopV("casadi Function")
    h = lib.cfg.casfun
    if h is not None:
        r = h(it, args, i, o, node)
        if r is not None:
            return r
    f = CasFun([ar.as_ca(resolve(x)) for x in i], [ar.as_ca(resolve(x)) if not isinstance(resolve(x), TopV)
                                                   else resolve(x) for x in o])
    if len(args) > 3:
        n = flat_items(it.as_list(args[3]).parts)
        f.innames = n
    if len(args) > 4:
        f.outnames = flat_items(it.as_list(args[4]).parts)
    return f


@fn("ca.nlpsol")
def ca_nlpsol(lib, it, args, kw, node):
    args = [it.freeze(a) for a in it.flat_args(args)]
    it.event("nlpsol", node, args=tuple(args))
    if lib.cfg.on_nlpsol:
        lib.cfg.on_nlpsol()
    return SolverV(args)


class SolverV(Model):
    cls = "nlpsol"

    def __init__(self, args):
        self.args = args

    def call(self, it, args, kw, node):
        return it.lib.cfg.solver_call(it, self, args, kw, node)

    def getattr(self, it, name, node):
        return TopV("solver.%s" % name)

    def setattr(self, it, name, v):
        pass

    def getitem(self, it, idx, node):
        return TopV("solver item")

    def contains(self, it, x):
        return top("in")
