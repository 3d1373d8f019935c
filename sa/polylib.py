"""Summaries of the polynomial parts of numpy, scipy and casadi: derivatives and integrals of the
term a polynomial variable stands for, and the nodes of Gauss rules."""
import math
from . import terms as tm
from .terms import T, ev, lift, sym, ONE, ZERO, Undecided
from .values import *
from . import arrays as ar
from . import lib as lb
from .lib import fn, simple, frz

ZVAR = "z@poly"          # the formal variable of numpy polynomials


def z():
    return Arr("ca", (ONE, ONE), lambda i, j: sym(ZVAR))


# ------------------------------------------------------------ numerical kernels
def jacobi_roots(n, a, b):
    """roots of the Jacobi polynomial in increasing order (bisection between sign changes, refined grid)"""
    def val(x):
        p0, p1 = 1.0, (a + 1) + (a + b + 2) * (x - 1) / 2
        if n == 0:
            return p0
        for k in range(2, n + 1):
            c = 2 * k + a + b
            a1 = 2 * k * (k + a + b) * (c - 2)
            a2 = (c - 1) * (c * (c - 2) * x + a * a - b * b)
            a3 = 2 * (k + a - 1) * (k + b - 1) * c
            p0, p1 = p1, (a2 * p1 - a3 * p0) / a1
        return p1
    if n <= 0:
        return []
    m = 400 * n
    xs = [-math.cos(math.pi * k / m) for k in range(m + 1)]
    out = []
    for l, r in zip(xs, xs[1:]):
        fl, fr = val(l), val(r)
        if fl == 0.0 and l > -1:
            out.append(l)
            continue
        if fl * fr < 0:
            for _ in range(100):
                c = (l + r) / 2
                fc = val(c)
                if fl * fc <= 0:
                    r, fr = c, fc
                else:
                    l, fl = c, fc
            out.append((l + r) / 2)
    if len(out) != n:
        raise Undecided("roots of the Jacobi polynomial")
    return out


_roots = {}


def gauss(n, a, b):
    k = (n, a, b)
    if k not in _roots:
        _roots[k] = jacobi_roots(n, a, b)
    return _roots[k]


def fit(f, M=16, lo=-1.0, hi=1.0):
    """Chebyshev coefficients of a polynomial of degree below M"""
    xs = [math.cos(math.pi * (k + .5) / M) for k in range(M)]
    ys = [f((lo + hi) / 2 + (hi - lo) / 2 * x) for x in xs]
    return [(2.0 if j else 1.0) / M * sum(y * math.cos(math.pi * j * (k + .5) / M) for k, y in enumerate(ys))
            for j in range(M)]


def cheb_eval(c, x):
    b1 = b2 = 0.0
    for q in reversed(c[1:]):
        b1, b2 = 2 * x * b1 - b2 + q, b1
    return x * b1 - b2 + c[0]


def cheb_der(c):
    n = len(c)
    d = [0.0] * (n + 1)
    for k in range(n - 1, 0, -1):
        d[k - 1] = (d[k + 1] if k + 1 <= n else 0.0) + 2 * k * c[k]
    d[0] /= 2
    return d[:n]


GL = None


def integral(f, a, b):
    global GL
    if GL is None:
        xs = gauss(14, 0.0, 0.0)
        ws = []
        for x in xs:
            # derivative of P_14
            p0, p1 = 1.0, x
            for k in range(2, 15):
                p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
            d = 14 * (x * p1 - p0) / (x * x - 1)
            ws.append(2 / ((1 - x * x) * d * d))
        GL = list(zip(xs, ws))
    return (b - a) / 2 * sum(w * f((a + b) / 2 + (b - a) / 2 * x) for x, w in GL)


def along(expr, key):
    """values of expr as a function of the symbol `key`, under the active valuation"""
    def f(x):
        env = tm.CUR
        d = {key: x}
        env.subst.append(d)
        KEEP.append(d)
        try:
            return float(ev(expr))
        finally:
            env.subst.pop()
    return f


KEEP = []


def entry(x):
    x = resolve(x)
    if isinstance(x, Arr):
        if x.ndim == 2:
            return x.at(ZERO, ZERO)
        if x.ndim == 0:
            return x.at()
        return x.at(ZERO)
    return ar.to_scalar(x)


def derivative(expr, var, order=1):
    """order-th derivative of a scalar term at the current value of the symbol"""
    def run():
        key = lb.symkey_at(ar.as_ca(var), 0, 0)
        x0 = float(ev(entry(var)))
        lo, hi = min(-1.0, x0), max(1.0, x0)
        c = fit(along(expr, key), 16, lo, hi)
        for _ in range(order):
            c = [2 / (hi - lo) * q for q in cheb_der(c)]
        return lift(cheb_eval(c, (x0 - (lo + hi) / 2) * 2 / (hi - lo)))
    return lazy(run)


def antiderivative(expr, var, lo, hi):
    def run():
        key = lb.symkey_at(ar.as_ca(var), 0, 0)
        return lift(integral(along(expr, key), float(ev(lo)), float(ev(hi))))
    return lazy(run)


# ------------------------------------------------------------------- summaries
@simple("ca.gradient", "ca.jacobian")
def ca_gradient(it, f, x, *a):
    if isinstance(resolve(f), TopV) or isinstance(resolve(x), TopV):
        return TopV("gradient")
    v = ar.as_ca(resolve(x))
    e = entry(f)
    return Arr("ca", (ONE, ONE), lambda i, j: derivative(e, v))


class Integrator(Model):
    cls = "integrator"

    def __init__(self, dae, t0, tf):
        self.dae, self.t0, self.tf = dae, t0, tf

    def call(self, it, args, kw, node):
        if args or set(kw) - {"x0"}:
            return TopV("integrator arguments")
        x0 = kw.get("x0", ZERO)
        x0 = entry(resolve(it.freeze(x0)))
        d = self.dae
        e, t = entry(d["ode"]), ar.as_ca(resolve(d["t"]))
        x = ar.as_ca(resolve(d["x"]))
        t0, tf = entry(self.t0), entry(self.tf)

        def run():
            kx = lb.symkey_at(x, 0, 0)
            a = along(e, kx)
            key = lb.symkey_at(t, 0, 0)
            probe = along(e, key)
            return lift(float(ev(x0)) + integral(probe, float(ev(t0)), float(ev(tf))))
        r = Arr("ca", (ONE, ONE), lambda i, j: lazy(run))
        return it.new(DictVal([((), tm.TRUE, "xf", r)]))

    def getattr(self, it, name, node):
        return TopV("integrator." + name)


def plain_dict(v):
    v = resolve(v)
    if not isinstance(v, DictVal) or v.ext:
        return None
    out = {}
    for w in v.writes:
        if w[0] or not isinstance(w[2], str) or w[1] != tm.TRUE:
            return None
        out[w[2]] = w[3]
    return out


@fn("ca.integrator")
def ca_integrator(lib, it, args, kw, node):
    args = [it.freeze(a) for a in it.flat_args(args)]
    if len(args) < 3 or kw:
        return TopV("integrator")
    dae = plain_dict(args[2])
    if dae is None or not {"x", "t", "ode"} <= set(dae):
        return TopV("integrator")
    t0, tf = ZERO, ONE
    rest = args[3:]
    if len(rest) >= 2:
        t0, tf = rest[0], rest[1]
        rest = rest[2:]
    if rest:
        o = plain_dict(rest[0])
        if o is None:
            return TopV("integrator options")
        t0, tf = o.get("t0", t0), o.get("tf", tf)
    if any(isinstance(resolve(x), TopV) for x in list(dae.values()) + [t0, tf]):
        return TopV("integrator")
    return Integrator(dae, t0, tf)


# numpy polynomials: a scalar term in the formal variable
@fn("np.poly1d")
def np_poly1d(lib, it, args, kw, node):
    args = [it.freeze(a) for a in it.flat_args(args)]
    r = len(args) > 1 or "r" in kw
    if r and len(args) > 1 and isinstance(resolve(args[1]), T) and resolve(args[1]) == ZERO:
        r = False
    c = it.as_list(resolve(args[0])) if not isinstance(resolve(args[0]), (T, int, float)) else None
    zt = sym(ZVAR)
    if c is None:
        return poly(ar.to_scalar(resolve(args[0])))
    items = flat_items(c.parts)
    if r:
        flag = kw.get("r", args[1] if len(args) > 1 else None)
        roots = flag is True or isinstance(flag, T) and flag == ONE
        if not roots or items is None:
            return TopV("poly1d")
        out = ONE
        for x in items:
            out = out * (zt - ar.to_scalar(resolve(x)))
        return poly(out)
    if items is None:
        return TopV("poly1d")
    out = ZERO
    for x in items:
        out = out * zt + ar.to_scalar(resolve(x))
    return poly(out)


def poly(t):
    return t


def is_poly(v):
    return isinstance(v, T)


def call_poly(it, f, args, kw, node):
    """value of a polynomial term at a point"""
    if len(args) != 1 or kw:
        return TopV("polynomial call")
    x = resolve(it.freeze(args[0]))
    if isinstance(x, (TopV, Gated, LazyV)):
        return TopV("polynomial argument") if isinstance(x, TopV) else distribute(
            x, lambda y: call_poly(it, f, [y], kw, node))
    e = f

    def one(t):
        s = lb.Subst([z()], [ar.as_ca(t)])
        return lb.lazy_sub(s, lambda: e)
    return ar.map1(one, ar.as_num(x)) if not isinstance(x, T) else one(x)


def order_of(m):
    m = ar.to_scalar(resolve(m)) if m is not None else ONE
    return int(m.const()) if m.is_const() else None


@simple("np.polyder")
def np_polyder(it, p, m=None):
    p, k = resolve(p), order_of(m)
    if not isinstance(p, T) or k is None:
        return TopV("polyder")
    return derivative(p, z(), k)


@simple("np.polyint")
def np_polyint(it, p, m=None):
    p, k = resolve(p), order_of(m)
    if not isinstance(p, T) or k != 1:
        return TopV("polyint")
    return antiderivative(p, z(), ZERO, sym(ZVAR))


@simple("np.polyval")
def np_polyval(it, p, x):
    if not isinstance(resolve(p), T):
        return TopV("polyval")
    return call_poly(it, resolve(p), [x], {}, None)


# Gauss nodes
def gauss_arr(n, a, b):
    n, a, b = [ar.to_scalar(resolve(q)) for q in (n, a, b)]

    def at(i):
        def run():
            k, A, B = int(ev(n)), float(ev(a)), float(ev(b))
            j = int(ev(i))
            if not 0 <= j < k:
                raise Undecided("node index")
            return lift(gauss(k, A, B)[j])
        return lazy(run)
    return Arr("np", (n,), at)


def pair(n, a, b):
    return (gauss_arr(n, a, b), TopV("weights"))


@simple("np.polynomial.legendre.leggauss", "scipy.special.roots_legendre", "scipy.special.p_roots")
def leggauss(it, n):
    return pair(n, ZERO, ZERO)


@simple("scipy.special.j_roots", "scipy.special.roots_jacobi")
def j_roots(it, n, a, b):
    return pair(n, a, b)
