"""Scalar value numbers.

A scalar value number `T` is a Laurent polynomial with rational coefficients
over atoms.  Atoms are symbols applied to index terms (`X(p,i,k)`, `scale_x(k)`),
interpreted operators (ite, sum, div, mod, comparisons, ...), results of opaque
callbacks, and recurrence (mu) nodes of loops that have no closed form.

Two value numbers are the same when their normal forms are the same.  When the
normal forms differ, `ev` gives the value of a term under a *valuation*: an
assignment of small sizes to the size symbols and of pseudo random reals to all
uninterpreted atoms (random interpretation).  Only a difference that such a
valuation confirms counts as a difference.
"""
import math
import zlib
from fractions import Fraction


class Undecided(Exception):
    """value is not known to the analysis"""


class Unbound(Undecided):
    """a generic index has no value here: keep the term symbolic"""


class EvalError(Exception):
    pass


# --------------------------------------------------------------------------
# valuations
class BoundError(Exception):
    pass


class Env:
    """a valuation: sizes, flags and hashed reals"""

    def __init__(self, seed, fixed, gen=None):
        self.seed = seed
        self.fixed = dict(fixed)      # name -> python value or callable(*ints)
        self.bind = {}                # bound variable name -> int/float
        self.subst = []               # stack of dicts atomkey -> value
        self.cache = {}
        self.memo = None              # results of delayed computations (when nothing else changes)
        self.steps = 0

    def sym(self, name, args):
        f = self.fixed.get(name)
        if f is not None:
            v = f(*args) if callable(f) else f
            if name in MIN and isinstance(v, (int, float)) and v < (MIN[name] or 0):
                raise BoundError("%s = %s is below the bound %s used by the analysis" % (name, v, MIN[name]))
            return v
        return hashreal(self.seed, name, args)


def hashreal(seed, name, args):
    s = repr((seed, name, tuple(norm_num(a) for a in args)))
    h = zlib.crc32(s.encode()) ^ (zlib.adler32(s[::-1].encode()) << 7)
    h = (h * 2654435761) & 0xFFFFFFFF
    return 0.6 + 1.3 * (h / 0xFFFFFFFF)


def norm_num(a):
    if isinstance(a, bool):
        return int(a)
    if isinstance(a, int):
        return a
    if isinstance(a, float):
        if a != a or a in (math.inf, -math.inf):
            return a
        if abs(a - round(a)) < 1e-12 and abs(a) < 1e9:
            return int(round(a))
        return float("%.9g" % a)
    if isinstance(a, Fraction):
        return norm_num(int(a) if a.denominator == 1 else float(a))
    if isinstance(a, tuple):
        return tuple(norm_num(x) for x in a)
    return a


CUR = None      # the active valuation (None: symbolic mode)


class use_env:
    def __init__(self, env):
        self.env = env

    def __enter__(self):
        global CUR
        self.old = CUR
        CUR = self.env
        return self.env

    def __exit__(self, *a):
        global CUR
        CUR = self.old


# --------------------------------------------------------------------------
class Atom:
    __slots__ = ("op", "args", "key", "h", "fv", "data")

    def __init__(self, op, args, data=None, fv=None):
        self.op = op
        self.args = args
        self.data = data
        self.key = (op,) + tuple(a.key() if isinstance(a, T) else a for a in args)
        self.h = hash(self.key)
        if fv is None:
            fv = frozenset()
            for a in args:
                if isinstance(a, T):
                    fv |= a.fv()
        self.fv = fv

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (self.h == o.h and self.key == o.key)

    def __lt__(self, o):
        return repr(self.key) < repr(o.key)

    def __repr__(self):
        if self.op == "sym":
            n = self.args[0]
            return n if len(self.args) == 1 else "%s(%s)" % (
                n, ",".join(map(repr, self.args[1:])))
        if self.op == "var":
            return str(self.args[0])
        return "%s(%s)" % (self.op, ", ".join(map(repr, self.args)))


class T:
    __slots__ = ("m", "_key", "_fv", "_h")

    def __init__(self, m):
        self.m = m
        self._key = None
        self._fv = None
        self._h = None

    def key(self):
        if self._key is None:
            self._key = tuple(sorted(
                ((tuple((a.key, e) for a, e in mono), c) for mono, c in self.m.items()),
                key=repr))
        return self._key

    def fv(self):
        if self._fv is None:
            s = frozenset()
            for mono in self.m:
                for a, e in mono:
                    s |= a.fv
            self._fv = s
        return self._fv

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, T):
            return False
        return self.key() == o.key()

    def is_const(self):
        return not self.m or (len(self.m) == 1 and () in self.m)

    def const(self):
        if not self.m:
            return 0
        c = self.m[()]
        return int(c) if isinstance(c, Fraction) and c.denominator == 1 else c

    def __repr__(self):
        if not self.m:
            return "0"
        out = []
        for mono, c in self.m.items():
            fs = ["%r%s" % (a, "" if e == 1 else "^%d" % e) for a, e in mono]
            if c != 1 or not fs:
                fs.insert(0, str(c))
            out.append("*".join(fs))
        return " + ".join(out)

    # arithmetic ------------------------------------------------------------
    def __add__(self, o):
        o = lift(o)
        if not self.m:
            return o
        if not o.m:
            return self
        m = dict(self.m)
        for k, c in o.m.items():
            v = m.get(k, 0) + c
            if v == 0:
                m.pop(k, None)
            else:
                m[k] = v
        return T(m)

    __radd__ = __add__

    def __neg__(self):
        return T({k: -c for k, c in self.m.items()})

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) - self

    def __mul__(self, o):
        o = lift(o)
        if not self.m or not o.m:
            # 0 * inf is nan: only fold when the other side is finite
            return ZERO
        if self is ONE:
            return o
        if o is ONE:
            return self
        m = {}
        for k1, c1 in self.m.items():
            for k2, c2 in o.m.items():
                k = mono_mul(k1, k2)
                v = m.get(k, 0) + c1 * c2
                if v == 0:
                    m.pop(k, None)
                else:
                    m[k] = v
        return T(m)

    __rmul__ = __mul__

    def inv(self):
        if not self.m:
            return atom("inv0", (self,))
        if len(self.m) == 1:
            (mono, c), = self.m.items()
            if isinstance(c, float):
                if not mono:
                    return lift(1.0 / c)
                return T({tuple((a, -e) for a, e in mono): 1.0 / c})
            return T({tuple((a, -e) for a, e in mono): 1 / Fraction(c)})
        return atom("inv", (self,))

    def __truediv__(self, o):
        o = lift(o)
        if self == o and not o.is_const():
            return ONE
        return self * o.inv()

    def __rtruediv__(self, o):
        return lift(o) / self

    def subst(self, var, t):
        """replace the bound variable named `var` by term t"""
        if var not in self.fv():
            return self
        out = ZERO
        for mono, c in self.m.items():
            x = T({(): c})
            for a, e in mono:
                y = atom_subst(a, var, t) if var in a.fv else T({((a, 1),): Fraction(1)})
                x = x * tpow(y, e)
            out = out + x
        return out


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for at, e in b:
        v = d.get(at, 0) + e
        if v:
            d[at] = v
        else:
            d.pop(at, None)
    return tuple(sorted(d.items(), key=lambda x: (x[0].h, x[1])))


def tpow(t, e):
    if e == 1:
        return t
    if e < 0:
        return tpow(t.inv(), -e)
    r = ONE
    for _ in range(e):
        r = r * t
    return r


ZERO = T({})
ONE = T({(): Fraction(1)})


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return T({(): Fraction(x)}) if x else ZERO
    if isinstance(x, Fraction):
        return T({(): x}) if x else ZERO
    if isinstance(x, float):
        if x == math.inf:
            return INF
        if x == -math.inf:
            return -INF
        if x != x:
            return atom("nan", ())
        if CUR is None:
            f = Fraction(x).limit_denominator(10**12)
            return T({(): f}) if f else ZERO
        return T({(): x}) if x else ZERO
    raise TypeError("lift %r" % (x,))


def atom(op, args, data=None, fv=None):
    a = Atom(op, tuple(args), data, fv)
    return T({((a, 1),): Fraction(1)})


def sym(name, *args):
    args = tuple(lift(a) for a in args)
    if CUR is not None:
        try:
            vals = tuple(ev(a) for a in args)
            if NOSYM[0] and "@" in name:
                return atom("sym", (name,) + tuple(lift(v) for v in vals))
            return lift(sym_value(CUR, name, vals))
        except Undecided:
            pass
    return atom("sym", (name,) + args)


NOSYM = [0]


def sym_value(env, name, vals):
    if env.subst and "@" in name:
        k = (name,) + tuple(norm_num(x) for x in vals)
        for d in reversed(env.subst):
            if k in d:
                return d[k]
    v = env.sym(name, vals)
    if TRACE and "@" in name:
        TRACE[-1].append(((name,) + tuple(norm_num(x) for x in vals), v))
    return v


TRACE = []


def var(name):
    if CUR is not None and name in CUR.bind:
        return lift(CUR.bind[name])
    return T({((Atom("var", (name,), fv=frozenset([name])), 1),): Fraction(1)})


TOP_N = [0]


def top(reason=""):
    TOP_N[0] += 1
    return atom("top", (TOP_N[0], str(reason)[:80]))


_fresh = [0]


def fresh(prefix="i"):
    _fresh[0] += 1
    return "%s#%d" % (prefix, _fresh[0])


INF = atom("inf", ())
TRUE, FALSE = ONE, ZERO


def has_top(t):
    for mono in t.m:
        for a, e in mono:
            if a.op == "top":
                return True
            for x in a.args:
                if isinstance(x, T) and has_top(x):
                    return True
    return False


def has_var_prefix(t, prefix):
    return any(v.startswith(prefix) for v in t.fv())


# ---------------------------------------------------------------- operators
def truth(t):
    """python bool if the condition is decided, else None"""
    if t.is_const():
        return t.const() != 0
    if CUR is not None:
        try:
            return bool(ev(t))
        except Undecided:
            return None
    return None


FACTS = []      # stack of literals (T condition, bool) assumed by the interpreter


class under:
    """assume a condition"""

    def __init__(self, c, val=True):
        self.c, self.val = c, val

    def __enter__(self):
        FACTS.append((self.c, self.val))

    def __exit__(self, *a):
        FACTS.pop()


def known(c):
    """truth of c under the assumed facts"""
    if not FACTS:
        return None
    n = t_not(c)
    for f, v in reversed(FACTS):
        if f == c:
            return v
        if f == n:
            return not v
    if len(c.m) == 1:
        (mono, k), = c.m.items()
        if k == 1 and len(mono) == 1 and mono[0][1] == 1:
            a = mono[0][0]
            if a.op == "not":
                r = known(a.args[0])
                return None if r is None else not r
            if a.op == "and":
                x, y = known(a.args[0]), known(a.args[1])
                if x is False or y is False:
                    return False
                if x and y:
                    return True
            if a.op == "ge0":
                return implied(a.args[0])
    return None


def implied(d):
    """sign of d >= 0 from one assumed inequality"""
    i = is_int(d)
    for f, v in reversed(FACTS):
        if len(f.m) != 1:
            continue
        (mono, k), = f.m.items()
        if k != 1 or len(mono) != 1 or mono[0][1] != 1:
            continue
        a = mono[0][0]
        while a.op == "not" and len(a.args[0].m) == 1:
            (mono, k), = a.args[0].m.items()
            if k != 1 or len(mono) != 1:
                break
            a, v = mono[0][0], not v
        if a.op != "ge0":
            continue
        g = a.args[0]
        if not v:
            g = -g
            if is_int(g):
                g = g - ONE
        if nonneg(d - g):
            return True
        e = -d - ONE if i else -d
        if (nonneg if i else positive)(e - g):
            return False
    return None


def is_int(t):
    for mono, c in t.m.items():
        if not isinstance(c, Fraction) or c.denominator != 1:
            return False
        for a, e in mono:
            if e < 0:
                return False
            if a.op == "sym":
                if a.args[0] not in MIN:
                    return False
            elif a.op == "var":
                if a.args[0].startswith(("c#", "tau#")):
                    return False
            elif a.op == "sum":
                if not is_int(a.args[2]):
                    return False
            elif a.op == "ite":
                if not (is_int(a.args[1]) and is_int(a.args[2])):
                    return False
            elif a.op not in ("div", "mod", "eq", "ge0", "not", "and"):
                return False
    return True


def decide(c):
    b = truth(c)
    if b is not None:
        return b
    b = known(c)
    if b is None and FACTS:
        d = restrict(c)
        if d is not c:
            return decide(d)
    return b


def restrict(c):
    """c with the alternatives excluded by the assumed facts removed"""
    if not any(has_ite(a) for mono in c.m for a, e in mono):
        return c
    out, ch = ZERO, False
    for mono, k in c.m.items():
        x = T({(): k})
        for a, e in mono:
            y = restrict_atom(a)
            if y is None:
                y = T({((a, 1),): Fraction(1)})
            else:
                ch = True
            x = x * tpow(y, e)
        out = out + x
    return out if ch else c


def has_ite(a):
    if a.op == "ite":
        return True
    return a.op in ("ge0", "not", "and", "eq") and any(
        isinstance(x, T) and any(has_ite(b) for mono in x.m for b, e in mono) for x in a.args)


def restrict_atom(a):
    if a.op == "ite":
        k = known(a.args[0])
        if k is None:
            return None
        return restrict(a.args[1] if k else a.args[2])
    if a.op in ("ge0", "not", "and", "eq"):
        xs = [restrict(x) if isinstance(x, T) else x for x in a.args]
        if all(x is y for x, y in zip(xs, a.args)):
            return None
        if a.op == "ge0":
            return t_le(ZERO, xs[0])
        if a.op == "eq":
            return t_eq(xs[0], ZERO)
        if a.op == "not":
            return t_not(xs[0])
        return t_and(*xs)
    return None


def t_not(c):
    if c.is_const():
        return FALSE if c.const() else TRUE
    if len(c.m) == 1:
        (mono, k), = c.m.items()
        if k == 1 and len(mono) == 1 and mono[0][1] == 1:
            a = mono[0][0]
            if a.op == "not":
                return a.args[0]
    return atom("not", (c,))


def t_and(a, b):
    x, y = decide(a), decide(b)
    if x is False or y is False:
        return FALSE
    if x is True:
        return b
    if y is True:
        return a
    if a == b:
        return a
    return atom("and", (a, b))


def t_or(a, b):
    return t_not(t_and(t_not(a), t_not(b)))


def t_eq(a, b):
    d = a - b
    if not d.m:
        return TRUE
    if d.is_const():
        return FALSE
    if CUR is not None:
        try:
            return TRUE if same_num(ev(a), ev(b)) else FALSE
        except Undecided:
            pass
    d = primitive(d)
    n = -d
    if repr(n.key()) < repr(d.key()):
        d = n
    if positive(d) or positive(-d):
        return FALSE
    return atom("eq", (d,))


def t_le(a, b):
    """a <= b"""
    d = b - a
    if d.is_const():
        return TRUE if d.const() >= 0 else FALSE
    if CUR is not None:
        try:
            x, y = ev(a), ev(b)
            return TRUE if x <= y else FALSE
        except Undecided:
            pass
    d = primitive(d)
    if nonneg(d):
        return TRUE
    if positive(-d):
        return FALSE
    return atom("ge0", (d,))


def primitive(d):
    """divide by common factors known to be positive"""
    if len(d.m) < 2:
        return d
    common = None
    for mono in d.m:
        s = {a: e for a, e in mono if e > 0 and a.op == "sym" and (MIN.get(a.args[0]) or 0) > 0}
        common = s if common is None else {a: min(e, s[a]) for a, e in common.items() if a in s}
        if not common:
            return d
    for a, e in common.items():
        d = d * tpow(T({((a, 1),): Fraction(1)}), -e)
    return d


def t_lt(a, b):
    return t_not(t_le(b, a))


# sizes that are at least one / zero; set by the harness
MIN = {}


def atom_min(a):
    if a.op == "sym":
        return MIN.get(a.args[0])
    if a.op == "var":
        return 0 if not a.args[0].startswith(("c#", "tau#")) else None
    if a.op in ("sum",):
        return 0 if a.data == "nonneg" else None
    if a.op == "psum":
        return 0
    return None


def lower(t):
    """a lower bound of an index term, or None"""
    s = Fraction(0)
    for mono, c in t.m.items():
        if not mono:
            s += c if isinstance(c, Fraction) else Fraction(c)
            continue
        if c < 0 or len(mono) != 1 or mono[0][1] != 1:
            if c > 0 and all(e > 0 and atom_min(a) is not None and atom_min(a) >= 0 for a, e in mono):
                l = Fraction(1)
                for a, e in mono:
                    l *= Fraction(atom_min(a)) ** e
                s += c * l
                continue
            return None
        l = atom_min(mono[0][0])
        if l is None:
            return None
        s += c * l
    return s


def nonneg(t):
    l = lower(t)
    return l is not None and l >= 0


def positive(t):
    l = lower(t)
    return l is not None and l > 0


def same_num(x, y):
    if x == y:
        return True
    try:
        if x != x and y != y:
            return True
        return abs(x - y) <= 1e-7 * max(1.0, abs(x), abs(y)) * 0.01
    except (TypeError, OverflowError):
        return False


def ite(c, a, b):
    return ite_lazy(c, lambda: a, lambda: b)


def ite_lazy(c, fa, fb):
    k = decide(c)
    if k is True:
        return fa()
    if k is False:
        return fb()
    # canonical polarity
    if len(c.m) == 1:
        (mono, kk), = c.m.items()
        if kk == 1 and len(mono) == 1 and mono[0][0].op == "not":
            return ite_lazy(mono[0][0].args[0], fb, fa)
    FACTS.append((c, True))
    try:
        a = fa()
    finally:
        FACTS.pop()
    FACTS.append((c, False))
    try:
        b = fb()
    finally:
        FACTS.pop()
    if a == b:
        return a
    if a == TRUE and b == FALSE and boolean(c):
        return c
    if a == FALSE and b == TRUE and boolean(c):
        return t_not(c)
    return atom("ite", (c, a, b))


def boolean(t):
    """the term is a truth value"""
    if t.is_const():
        return t.const() in (0, 1)
    if len(t.m) != 1:
        return False
    (mono, k), = t.m.items()
    return k == 1 and len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op in ("eq", "ge0", "not", "and")


def t_div(a, n):
    if a.is_const() and n.is_const() and n.const() != 0:
        return lift(a.const() // n.const())
    if n == ONE:
        return a
    if CUR is not None:
        try:
            return lift(ev(a) // ev(n))
        except Undecided:
            pass
    return atom("div", (a, n))


def t_mod(a, n):
    if a.is_const() and n.is_const() and n.const() != 0:
        return lift(a.const() % n.const())
    if n == ONE:
        return ZERO
    if CUR is not None:
        try:
            return lift(ev(a) % ev(n))
        except Undecided:
            pass
    return atom("mod", (a, n))


def t_sum(n, f):
    """sum of f(j) for 0 <= j < n"""
    n = lift(n)
    k = None
    if n.is_const():
        k = n.const()
    elif CUR is not None:
        try:
            k = ev(n)
        except Undecided:
            k = None
    if k is not None:
        if CUR is None and k > 12:
            k = None
        else:
            s = ZERO
            for j in range(int(k)):
                s = s + lift_v(f(lift(j)))
            return s
    v = fresh("b")
    body = lift_v(f(var(v)))
    return mk_sum(n, v, body)


def lift_v(x):
    return x if isinstance(x, T) else lift(x)


def mk_sum(n, v, body):
    # linear: split over monomials, pull out factors free of v
    # n = base + const: split the last terms off
    off = n.m.get((), Fraction(0))
    if isinstance(off, Fraction) and off.denominator == 1 and off > 0 and off < 8:
        base = n - lift(int(off))
        s = mk_sum(base, v, body)
        for k in range(int(off)):
            s = s + body.subst(v, base + k)
        return s
    if isinstance(off, Fraction) and off.denominator == 1 and off < 0 and off > -8:
        base = n - lift(int(off))
        s = mk_sum(base, v, body)
        for k in range(1, int(-off) + 1):
            s = s - body.subst(v, base - k)
        return s
    out = ZERO
    for mono, c in body.m.items():
        inn = tuple((a, e) for a, e in mono if v in a.fv or "*" in a.fv)
        outm = tuple((a, e) for a, e in mono if not (v in a.fv or "*" in a.fv))
        co = T({outm: c})
        if not inn:
            out = out + co * n
        else:
            b = T({inn: Fraction(1)})
            d = depth(b)
            cv = "s%d" % d
            b = b.subst(v, T({((Atom("var", (cv,), fv=frozenset([cv])), 1),): Fraction(1)}))
            a = Atom("sum", (n, cv, b), data="nonneg" if nonneg_int(b) else None,
                     fv=n.fv() | (b.fv() - {cv}))
            out = out + co * T({((a, 1),): Fraction(1)})
    return out


def nonneg_int(b):
    return nonneg(b)


def depth(t):
    d = 0
    for mono in t.m:
        for a, e in mono:
            if a.op == "sum":
                d = max(d, 1 + depth(a.args[2]), depth(a.args[0]))
            else:
                for x in a.args:
                    if isinstance(x, T):
                        d = max(d, depth(x))
    return d


def t_fn(name, *args):
    """interpreted elementary function"""
    args = tuple(lift(a) for a in args)
    if CUR is not None or all(a.is_const() for a in args):
        try:
            return lift(FN[name](*[ev(a) for a in args]))
        except Undecided:
            pass
    return atom("fn", (name,) + args)


def _safe(f):
    def g(*a):
        try:
            return f(*a)
        except (ValueError, ZeroDivisionError, OverflowError):
            return math.nan
    return g


FN = {
    "abs": abs, "max": max, "min": min,
    "sqrt": _safe(lambda x: math.sqrt(x)), "cos": _safe(math.cos), "sin": _safe(math.sin),
    "int": _safe(lambda x: int(x)), "pow": _safe(lambda x, y: x ** y),
    "round": _safe(lambda x: round(x)), "floor": _safe(lambda x: math.floor(x)),
    "ceil": _safe(lambda x: math.ceil(x)), "exp": _safe(math.exp), "log": _safe(math.log),
}


def opaque(name, data, idx=()):
    """result of an opaque operation on values; `data` has evaluate() giving a
    hashable of numbers under the active valuation"""
    idx = tuple(lift(i) for i in idx)
    if CUR is not None:
        try:
            return lift(interp_opaque(name, tuple(ev(i) for i in idx), data.evaluate()))
        except Unbound:
            TOP_N[0] += 1
            ident = ("cur", TOP_N[0])
    else:
        ident = data.ident()
    return atom("opq", (name,) + idx + (ident,), data=(name, idx, data),
                fv=data.fv() | frozenset().union(*[i.fv() for i in idx]) if idx else data.fv())


def interp_opaque(name, idx, data):
    """random interpretation of an uninterpreted function: a smooth function of
    the numbers in `data` with coefficients drawn from (name, indices, shape)"""
    seed = CUR.seed
    nums, sig = [], []

    def walk(x):
        if isinstance(x, tuple):
            sig.append("(")
            for y in x:
                walk(y)
            sig.append(")")
        elif isinstance(x, (int, float)) and not isinstance(x, bool) and abs(x) < 1e6:
            nums.append(x)
            sig.append("n")
        else:
            sig.append(repr(x))
    walk(data)
    key = (name, tuple(norm_num(i) for i in idx), zlib.crc32("".join(sig).encode()))
    ck = ("opq", key, len(nums))
    co = CUR.cache.get(ck)
    if co is None:
        co = [hashreal(seed, "c", (str(key), j)) for j in range(2 * len(nums) + 1)]
        CUR.cache[ck] = co
    v = co[0]
    for j, x in enumerate(nums):
        v = v + (co[2 * j + 1] - 1.25) * math.sin(co[2 * j + 2] * x + co[2 * j + 1])
    return v


# ------------------------------------------------------------- substitution
def atom_subst(a, v, t):
    if a.op == "var":
        return t if a.args[0] == v else T({((a, 1),): Fraction(1)})
    if a.op == "sum":
        n, cv, b = a.args
        nn = n.subst(v, t)
        if v == cv or not (v in b.fv() or "*" in b.fv()):
            body, bv = b, cv
        else:
            bv = fresh("b")
            body = b.subst(cv, var0(bv)).subst(v, t)
            return mk_sum_in(nn, bv, body)
        bv2 = fresh("b")
        return mk_sum_in(nn, bv2, body.subst(cv, var0(bv2)))
    if a.op == "opq":
        name, idx, data = a.data
        return opaque(name, data.subst(v, t), tuple(i.subst(v, t) for i in idx))
    if a.op == "rec":
        return a.data.subst(a, v, t)
    if a.op == "inv":
        return a.args[0].subst(v, t).inv()
    args = [x.subst(v, t) if isinstance(x, T) else x for x in a.args]
    return rebuild(a.op, args, a)


def var0(name):
    return T({((Atom("var", (name,), fv=frozenset([name])), 1),): Fraction(1)})


def mk_sum_in(n, v, body):
    if n.is_const() and n.const() <= 12:
        s = ZERO
        for j in range(int(n.const())):
            s = s + body.subst(v, lift(j))
        return s
    return mk_sum(n, v, body)


def rebuild(op, args, a):
    if op == "sym":
        return sym(*args)
    if op == "ite":
        return ite(*args)
    if op == "eq":
        return t_eq(args[0], ZERO)
    if op == "ge0":
        return t_le(ZERO, args[0])
    if op == "not":
        return t_not(args[0])
    if op == "and":
        return t_and(*args)
    if op == "div":
        return t_div(*args)
    if op == "mod":
        return t_mod(*args)
    if op == "fn":
        return t_fn(*args)
    return atom(op, args, data=a.data)


# ---------------------------------------------------------------- evaluation
def ev(t):
    """value of a term under the active valuation"""
    if CUR is None:
        raise Undecided("no valuation")
    if not t.m:
        return 0
    s = 0
    for mono, c in t.m.items():
        x = c
        if isinstance(c, Fraction):
            x = int(c) if c.denominator == 1 else float(c)
        for a, e in mono:
            y = ev_atom(a)
            if e == 1:
                x = x * y
            else:
                try:
                    x = x * (float(y) ** e if e < 0 else y ** e)
                except ZeroDivisionError:
                    x = x * math.inf
                except OverflowError:
                    x = math.inf
        s = s + x
    return s


def ev_atom(a):
    env = CUR
    op = a.op
    if op == "sym":
        return sym_value(env, a.args[0], tuple(ev(x) for x in a.args[1:]))
    if op == "var":
        n = a.args[0]
        if n in env.bind:
            return env.bind[n]
        raise Unbound("unbound variable %s" % n)
    if op == "inf":
        return math.inf
    if op == "nan":
        return math.nan
    if op == "top":
        raise Undecided("top: %s" % (a.args[1],))
    if op == "ite":
        return ev(a.args[1]) if ev(a.args[0]) else ev(a.args[2])
    if op == "not":
        return 0 if ev(a.args[0]) else 1
    if op == "and":
        try:
            if not ev(a.args[0]):
                return 0
        except Undecided:
            if not ev(a.args[1]):
                return 0
            raise
        return 1 if ev(a.args[1]) else 0
    if op == "eq":
        return 1 if same_num(ev(a.args[0]), 0) else 0
    if op == "ge0":
        x = ev(a.args[0])
        return 1 if x >= -1e-9 * (0 if isinstance(x, int) else 1) else 0
    if op == "div":
        return ev(a.args[0]) // ev(a.args[1])
    if op == "mod":
        return ev(a.args[0]) % ev(a.args[1])
    if op in ("inv", "inv0"):
        x = ev(a.args[0])
        return 1.0 / x if x else math.inf
    if op == "fn":
        return FN[a.args[0]](*[ev(x) for x in a.args[1:]])
    if op == "sum":
        n, cv, b = a.args
        k = int(ev(n))
        old = env.bind.get(cv, None)
        s = 0
        try:
            for j in range(k):
                env.bind[cv] = j
                s = s + ev(b)
        finally:
            if old is None:
                env.bind.pop(cv, None)
            else:
                env.bind[cv] = old
        return s
    if op == "opq":
        name, idx, data = a.data
        return interp_opaque(name, tuple(ev(i) for i in idx), data.evaluate())
    if op == "rec":
        return a.data.evaluate(a)
    raise EvalError(op)


class bind:
    """bind a variable to a term: in symbolic mode the caller substitutes"""

    def __init__(self, name, value):
        self.name, self.value = name, value

    def __enter__(self):
        if CUR is None:
            return
        self.env = CUR
        self.has = self.name in CUR.bind
        self.old = CUR.bind.get(self.name)
        v = self.value
        CUR.bind[self.name] = ev(v) if isinstance(v, T) else v

    def __exit__(self, *a):
        if CUR is None:
            return
        if self.has:
            self.env.bind[self.name] = self.old
        else:
            self.env.bind.pop(self.name, None)


class Rec:
    """the state of a loop after `count` iterations, component k:
    names: carry variable names, init: terms, step: terms over carries and the
    iteration variable"""
    N = 0

    def __init__(self, names, init, step, it, lo=ZERO):
        Rec.N += 1
        self.id = Rec.N
        self.names, self.init, self.step, self.it = names, init, step, it
        self.free = frozenset().union(
            *[x.fv() for x in init], *[x.fv() for x in step]) - set(names) - {it}
        self.sub = {}

    def at(self, k, count):
        count = lift(count)
        key = tuple(sorted((v, t.key()) for v, t in self.sub.items()))
        a = Atom("rec", (self.id, k, key, count), data=self,
                 fv=count.fv() | self._fv())
        if CUR is not None:
            try:
                return lift(self.evaluate(a))
            except Unbound:
                pass
        return T({((a, 1),): Fraction(1)})

    def _fv(self):
        s = set()
        for v in self.free:
            if v in self.sub:
                s |= self.sub[v].fv()
            else:
                s.add(v)
        return frozenset(s)

    def subst(self, a, v, t):
        r = Rec.__new__(Rec)
        r.__dict__.update(self.__dict__)
        r.sub = {k: x.subst(v, t) for k, x in self.sub.items()}
        if (v in self.free or "*" in self.free) and v not in r.sub and v not in self.names and v != self.it:
            r.sub[v] = t
        return r.at(a.args[1], a.args[3].subst(v, t))

    def evaluate(self, a):
        env = CUR
        n = int(ev(a.args[3]))
        vals = {v: ev(t) for v, t in self.sub.items()}
        saved = dict(env.bind)
        try:
            env.bind.update(vals)
            st = [ev(x) for x in self.init]
            for j in range(n):
                env.bind[self.it] = j
                for nm, x in zip(self.names, st):
                    env.bind[nm] = x
                st = [ev(x) for x in self.step]
            return st[a.args[1]]
        finally:
            env.bind.clear()
            env.bind.update(saved)
