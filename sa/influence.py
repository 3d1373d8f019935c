"""C30: every documented argument takes effect.

Dependence analysis (data and control) over the syntax tree, with summaries of the functions of
the module.  The taint of a value is the set of parameters it may depend on; it is always an
over-approximation, so that a missing dependence is certain."""
import ast
from .report import Report, SRC

NONE = frozenset()
PRINT = {"print"}


def U(*xs):
    r = NONE
    for x in xs:
        r |= x
    return r


class Tup:
    """taint of a tuple of known length"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = list(e)


def flat(v):
    return U(*[flat(x) for x in v.e]) if isinstance(v, Tup) else v


def tint(v, t):
    return Tup([tint(x, t) for x in v.e]) if isinstance(v, Tup) else v | t


def merge(a, b):
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.e) == len(b.e):
        return Tup([merge(x, y) for x, y in zip(a.e, b.e)])
    return flat(a) | flat(b)


def weak(t):
    """?p: depends on whether p was given, not on what it is"""
    return frozenset(x if x[0] == "?" else "?" + x for x in t)


class Summary:
    def __init__(self):
        self.ret = None          # taint over parameter names
        self.eff = {}            # target -> set of parameter names

    def key(self):
        def f(v):
            return tuple(f(x) for x in v.e) if isinstance(v, Tup) else tuple(sorted(v))
        return (None if self.ret is None else f(self.ret), tuple(sorted((k, tuple(sorted(v))) for k, v in self.eff.items())))


class Module:
    def __init__(self, path):
        self.tree = ast.parse(open(path).read())
        self.funcs = {}          # (cls, name) -> node
        self.classes = {}
        for s in self.tree.body:
            if isinstance(s, ast.FunctionDef):
                self.funcs[(None, s.name)] = s
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = s
                for m in s.body:
                    if isinstance(m, ast.FunctionDef):
                        self.funcs[(s.name, m.name)] = m
        self.by_name = {}
        for (c, n) in self.funcs:
            self.by_name.setdefault(n, []).append((c, n))
        self.sums = {k: Summary() for k in self.funcs}
        self.notes = {}
        for _ in range(12):
            old = {k: s.key() for k, s in self.sums.items()}
            for k in self.funcs:
                self.sums[k] = Analysis(self, k).run()
            if old == {k: s.key() for k, s in self.sums.items()}:
                break

    def bases(self, c):
        out = []
        while c in self.classes:
            out.append(c)
            b = [x.id for x in self.classes[c].bases if isinstance(x, ast.Name) and x.id in self.classes]
            c = b[0] if b else None
        return out


def static(node):
    return any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in node.decorator_list)


def params(node):
    a = node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


class Analysis:
    def __init__(self, mod, key):
        self.mod, self.key = mod, key
        self.node = mod.funcs[key]
        self.sum = Summary()
        self.pc = NONE
        self.nested = {}
        self.kinds = {}          # name -> class name when known
        self.exits = NONE        # taint of the tests under which the function may have left already

    def run(self):
        st = {}
        for p in params(self.node):
            st[p] = frozenset([p])
        me = self.node.args.args[0].arg if self.key[0] and not static(self.node) and self.node.args.args else None
        self.me = me
        if me:
            st[me] = NONE
        self.block(self.node.body, st)
        return self.sum

    # ---------------------------------------------------------------- effects
    def effect(self, target, t):
        t = t | self.pc | self.exits
        self.sum.eff[target] = self.sum.eff.get(target, NONE) | t

    def ret(self, v):
        v = tint(v, self.pc | self.exits)
        self.sum.ret = v if self.sum.ret is None else merge(self.sum.ret, v)

    # ------------------------------------------------------------- statements
    def block(self, stmts, st):
        for s in stmts:
            if not self.stmt(s, st):
                return False
        return True

    def copy_into(self, st, new):
        st.clear()
        st.update(new)

    def join(self, a, b):
        out = {}
        for k in set(a) | set(b):
            if k in a and k in b:
                out[k] = merge(a[k], b[k])
            else:
                out[k] = a.get(k, b.get(k))
        return out

    def stores(self, stmts):
        names = set()
        for s in stmts:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    names.add(n.id)
                elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store):
                    names |= self.roots(n)
        return names

    def roots(self, n):
        while isinstance(n, (ast.Subscript, ast.Starred)):
            n = n.value
        if isinstance(n, ast.Attribute):
            return {ast.unparse(n)}
        return {n.id} if isinstance(n, ast.Name) else set()

    def stmt(self, s, st):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, st)
            for t in s.targets:
                self.assign(t, v, st)
            if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                c = self.class_of(s.value)
                if c:
                    self.kinds[s.targets[0].id] = c
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, st), st)
        elif isinstance(s, ast.AugAssign):
            v = flat(self.ev(s.value, st)) | flat(self.load(s.target, st))
            self.assign(s.target, v, st)
        elif isinstance(s, ast.Expr):
            self.expr_stmt(s.value, st)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.ret(self.ev(s.value, st))
            else:
                self.ret(NONE)
            return False
        elif isinstance(s, ast.Raise):
            self.effect("raise", flat(self.ev(s.exc, st)) if s.exc else NONE)
            return False
        elif isinstance(s, ast.Assert):
            self.effect("raise", flat(self.ev(s.test, st)))
        elif isinstance(s, ast.If):
            t = flat(self.ev(s.test, st))
            old = self.pc
            self.pc = old | t
            a, b = dict(st), dict(st)
            ra = self.block(s.body, a)
            rb = self.block(s.orelse, b)
            self.pc = old
            if not (ra and rb):
                self.exits |= t | old
            if not ra and not rb:
                return False
            out = self.join(a, b) if ra and rb else (a if ra else b)
            for n in self.stores(s.body) | self.stores(s.orelse):
                if n in out:
                    out[n] = tint(out[n], t)
            self.copy_into(st, out)
        elif isinstance(s, (ast.For, ast.While)):
            it = flat(self.ev(s.iter if isinstance(s, ast.For) else s.test, st))
            old = self.pc
            self.pc = old | it
            for _ in range(4):
                before = dict(st)
                b = dict(st)
                if isinstance(s, ast.For):
                    self.assign(s.target, self.elements(s.iter, st), b)
                self.block(s.body, b)
                out = self.join(st, b)
                for n in self.stores(s.body):
                    if n in out:
                        out[n] = tint(out[n], it)
                self.copy_into(st, out)
                if isinstance(s, ast.While):
                    it |= flat(self.ev(s.test, st))
                    self.pc = old | it
                if all(k in before and flat(before[k]) == flat(v) for k, v in st.items()):
                    break
            self.pc = old
            self.block(s.orelse, st)
        elif isinstance(s, (ast.Break, ast.Continue)):
            self.exits |= self.pc
            return False
        elif isinstance(s, ast.With):
            for i in s.items:
                v = self.ev(i.context_expr, st)
                if i.optional_vars:
                    self.assign(i.optional_vars, flat(v), st)
            return self.block(s.body, st)
        elif isinstance(s, ast.Try):
            a = dict(st)
            ra = self.block(s.body, a) and self.block(s.orelse, a)
            outs = [a] if ra else []
            for h in s.handlers:
                b = self.join(st, a)
                if h.name:
                    b[h.name] = NONE
                if self.block(h.body, b):
                    outs.append(b)
            if outs:
                out = outs[0]
                for o in outs[1:]:
                    out = self.join(out, o)
                self.copy_into(st, out)
            r = self.block(s.finalbody, st)
            return bool(outs) and r
        elif isinstance(s, (ast.FunctionDef,)):
            self.nested[s.name] = s
            st[s.name] = U(*[flat(self.ev(d, st)) for d in s.args.defaults])
        elif isinstance(s, ast.Delete):
            pass
        return True

    def expr_stmt(self, e, st):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in PRINT:
            return
        self.discard = e
        v = flat(self.ev(e, st))
        if isinstance(e, ast.Call) and not self.known(e, st):
            self.effect("call " + (e.func.attr if isinstance(e.func, ast.Attribute) else ast.unparse(e.func)), v)
        elif not isinstance(e, (ast.Call, ast.Constant)):
            self.effect("expr", v) if isinstance(e, (ast.Yield, ast.YieldFrom, ast.Await)) else None

    def elements(self, it, st):
        """taint of the elements of an iterable, keeping tuple structure of zip and enumerate"""
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
            if it.func.id == "zip":
                return Tup([self.elements(a, st) for a in it.args])
            if it.func.id == "enumerate" and it.args:
                e = self.elements(it.args[0], st)
                return Tup([flat(self.ev(it.args[0], st)), e])
        return flat(self.ev(it, st))

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st[t.id] = tint(v, self.pc)
            for k in [k for k in st if k.startswith(t.id + ".")]:
                del st[k]
            if t.id in self.kinds:
                self.kinds.pop(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Tup) and len(v.e) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                for x, y in zip(t.elts, v.e):
                    self.assign(x, y, st)
            else:
                for x in t.elts:
                    self.assign(x, flat(v), st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, flat(v), st)
        elif isinstance(t, ast.Attribute):
            k = ast.unparse(t)
            root = t
            while isinstance(root, (ast.Attribute, ast.Subscript)):
                root = root.value
            st[k] = tint(v, self.pc)
            if isinstance(root, ast.Name):
                if root.id == self.me:
                    self.effect(self.target(t), flat(v))
                else:
                    if root.id in params(self.node):
                        self.effect("arg", flat(v))
                    st[root.id] = flat(st.get(root.id, NONE)) | flat(v) | self.pc
        elif isinstance(t, ast.Subscript):
            i = flat(self.ev(t.slice, st))
            for k in self.roots(t):
                old = flat(st.get(k, NONE)) if k in st else flat(self.load(self.base(t), st))
                st[k] = old | flat(v) | i | self.pc
            b = self.base(t)
            if isinstance(b, ast.Attribute):
                self.effect(self.target(b), flat(v) | i)
            elif isinstance(b, ast.Name) and b.id in params(self.node):
                self.effect("arg", flat(v) | i)

    def target(self, t):
        while isinstance(t.value, (ast.Attribute, ast.Subscript)):
            t = t.value
            while isinstance(t, ast.Subscript):
                t = t.value
            if not isinstance(t, ast.Attribute):
                return "expr"
        return "self." + t.attr

    def base(self, t):
        while isinstance(t, (ast.Subscript, ast.Starred)):
            t = t.value
        return t

    # ------------------------------------------------------------ expressions
    def load(self, e, st):
        if isinstance(e, ast.Name) and e.id in self.nested:
            n = self.nested[e.id]
            own = set(params(n))
            return flat(st.get(e.id, NONE)) | U(*[flat(st[x.id]) for x in ast.walk(n) if isinstance(x, ast.Name)
                                                  and x.id in st and x.id not in own])
        if isinstance(e, ast.Name):
            return st.get(e.id, NONE)
        if isinstance(e, ast.Attribute):
            k = ast.unparse(e)
            return (st[k] if k in st else NONE) if isinstance(e.value, ast.Name) and e.value.id == self.me else \
                flat(st.get(k, NONE)) | flat(self.ev(e.value, st))
        return self.ev(e, st)

    def ev(self, e, st):
        if e is None:
            return NONE
        if isinstance(e, ast.Constant):
            return NONE
        if isinstance(e, (ast.Name, ast.Attribute)):
            return self.load(e, st)
        if isinstance(e, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in e.elts):
                return U(*[flat(self.ev(x, st)) for x in e.elts])
            return Tup([self.ev(x, st) for x in e.elts])
        if isinstance(e, ast.Subscript):
            v = self.ev(e.value, st)
            i = flat(self.ev(e.slice, st))
            if isinstance(v, Tup) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) \
                    and -len(v.e) <= e.slice.value < len(v.e):
                return v.e[e.slice.value]
            return flat(v) | i
        if isinstance(e, ast.IfExp):
            t = flat(self.ev(e.test, st))
            if isinstance(e.test, ast.Constant):
                return self.ev(e.body if e.test.value else e.orelse, st)
            return tint(merge(self.ev(e.body, st), self.ev(e.orelse, st)), t)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            s = dict(st)
            t = NONE
            for g in e.generators:
                t |= flat(self.ev(g.iter, s))
                self.assign(g.target, self.elements(g.iter, s), s)
                for c in g.ifs:
                    t |= flat(self.ev(c, s))
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                t |= flat(self.ev(x, s))
            return t
        if isinstance(e, ast.Lambda):
            s = dict(st)
            for p in params(e):
                s[p] = NONE
            return flat(self.ev(e.body, s))
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, st)
            self.assign(e.target, v, st)
            return v
        if isinstance(e, ast.Call):
            return self.call(e, st)
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) \
                and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None \
                and isinstance(e.left, ast.Name) and e.left.id in params(self.node):
            # tells whether the caller gave a value, nothing about the value
            return weak(flat(self.ev(e.left, st)))
        t = NONE
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                t |= flat(self.ev(c, st))
        return t

    # ------------------------------------------------------------------ calls
    def class_of(self, e):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in self.mod.classes:
            return e.func.id
        return None

    def known(self, e, st):
        f = e.func
        if isinstance(f, ast.Name):
            if f.id in self.nested:
                return [("nested", f.id)]
            if f.id in st:
                return None
            if (None, f.id) in self.mod.funcs:
                return [(None, f.id)]
            if f.id in self.mod.classes:
                for c in self.mod.bases(f.id):
                    if (c, "__init__") in self.mod.funcs:
                        return [(c, "__init__")]
            return None
        if isinstance(f, ast.Attribute):
            c = None
            if isinstance(f.value, ast.Name):
                if f.value.id == self.me:
                    c = self.key[0]
                elif f.value.id in self.mod.classes:
                    c = f.value.id
                elif f.value.id in self.kinds:
                    c = self.kinds[f.value.id]
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                for b in self.mod.bases(self.key[0])[1:]:
                    if (b, f.attr) in self.mod.funcs:
                        return [(b, f.attr)]
            if c is not None:
                out = []
                for b in self.mod.bases(c):
                    if (b, f.attr) in self.mod.funcs:
                        out.append((b, f.attr))
                        break
                # and whatever overrides it
                if c == self.key[0]:
                    for (k, n) in self.mod.by_name.get(f.attr, []):
                        if k and c in self.mod.bases(k) and (k, n) not in out:
                            out.append((k, n))
                return out or None
            root = f.value
            while isinstance(root, (ast.Attribute, ast.Subscript, ast.Call)):
                root = root.func if isinstance(root, ast.Call) else root.value
            if isinstance(root, ast.Name) and root.id in LIBS:
                return None
            if f.attr in self.mod.by_name and f.attr not in COMMON:
                return [k for k in self.mod.by_name[f.attr] if k[0]] or None
        return None

    def call(self, e, st):
        f = e.func
        args = [self.ev(a, st) for a in e.args]
        kws = [(k.arg, self.ev(k.value, st)) for k in e.keywords]
        everything = U(*[flat(a) for a in args], *[flat(v) for _, v in kws])
        star = any(isinstance(a, ast.Starred) for a in e.args)
        recv = flat(self.ev(f.value, st)) if isinstance(f, ast.Attribute) else flat(st.get(f.id, NONE)) if isinstance(f, ast.Name) else flat(self.ev(f, st))
        tg = self.known(e, st)
        if tg and tg[0][0] == "nested":
            n = self.nested[tg[0][1]]
            s = dict(st)
            for p in params(n):
                s[p] = everything
            old = self.sum
            self.sum = Summary()
            oldx, me = self.exits, self.me
            self.exits = NONE
            self.nested = {k: v for k, v in self.nested.items() if k != tg[0][1]}
            self.block(n.body, s)
            self.nested[tg[0][1]] = n
            inner, self.sum, self.exits = self.sum, old, oldx
            for k, v in inner.eff.items():
                self.effect(k, v)
            return inner.ret if inner.ret is not None else NONE
        if tg:
            out = None
            for k in tg:
                node = self.mod.funcs[k]
                sm = self.mod.sums[k]
                ps = [p.arg for p in node.args.posonlyargs + node.args.args]
                bound = {}
                if k[0] and not static(node):
                    me, ps = ps[0], ps[1:]
                    # called through the class: the instance is the first argument
                    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in self.mod.classes \
                            and not any(isinstance(d, ast.Name) and d.id == "classmethod" for d in node.decorator_list):
                        ps = [me] + ps
                for i, a in enumerate(args):
                    if star:
                        for p in params(node):
                            bound[p] = bound.get(p, NONE) | everything
                    elif i < len(ps):
                        bound[ps[i]] = flat(a)
                    elif node.args.vararg:
                        bound[node.args.vararg.arg] = bound.get(node.args.vararg.arg, NONE) | flat(a)
                for n, v in kws:
                    if n is None:
                        for p in params(node):
                            bound[p] = bound.get(p, NONE) | flat(v)
                    elif n in params(node):
                        bound[n] = flat(v)
                    elif node.args.kwarg:
                        bound[node.args.kwarg.arg] = bound.get(node.args.kwarg.arg, NONE) | flat(v)

                def sub(v):
                    return Tup([sub(x) for x in v.e]) if isinstance(v, Tup) else U(*[
                        weak(bound.get(p[1:], NONE)) if p[0] == "?" else bound.get(p, NONE) for p in v])
                # what the instance holds already
                held = recv | U(*[flat(v) for n, v in st.items() if self.me and n.startswith(self.me + ".")])
                r = NONE if sm.ret is None else tint(sub(sm.ret), held)
                if k[1] == "__init__":
                    r = U(*[sub(v) for v in sm.eff.values()])
                out = r if out is None else merge(out, r)
                mine = isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == self.me or \
                    isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call)
                for t, v in sm.eff.items():
                    v = sub(v)
                    if t.startswith("self.") and not mine:
                        for n in (self.roots(f.value) if isinstance(f, ast.Attribute) else ()):
                            st[n] = flat(st.get(n, NONE)) | v
                        if isinstance(f, ast.Attribute) and self.me and ast.unparse(f.value).startswith(self.me + "."):
                            self.effect("self." + ast.unparse(f.value).split(".")[1], v)
                        continue
                    if k[1] == "__init__" and not mine:
                        if t == "raise":
                            self.effect(t, v)
                        continue
                    self.effect(t, v)
                    if t.startswith("self.") and self.me:
                        n = self.me + t[4:]
                        st[n] = flat(st.get(n, NONE)) | v
                    if t == "arg":
                        for a in list(e.args) + [q.value for q in e.keywords]:
                            for n in self.roots(a):
                                st[n] = flat(st.get(n, NONE)) | v
            return out
        # unknown: may store its arguments in its receiver, and calls on the plotting library are effects
        t = everything | recv
        root = f
        while isinstance(root, (ast.Attribute, ast.Subscript)):
            root = root.value
        if isinstance(root, ast.Name) and root.id == "plt":
            self.effect("call " + f.attr, t) if isinstance(f, ast.Attribute) else None
        elif isinstance(f, ast.Attribute) and everything:
            for n in self.roots(f.value):
                if n not in LIBS:
                    st[n] = flat(st.get(n, NONE)) | everything | self.pc
                    if self.me and n.startswith(self.me + "."):
                        self.effect("self." + n.split(".")[1], everything)
        # a function stored in a container or an attribute may read anything the instance holds
        if isinstance(root, ast.Name) and root.id == self.me:
            t |= U(*[flat(v) for n, v in st.items() if n.startswith(self.me + ".")])
        return t


LIBS = {"np", "ca", "plt", "copy", "math", "time", "itertools", "integrate", "interpolate", "warnings", "scipy"}
COMMON = {"append", "get", "copy", "update", "items", "values", "keys", "extend", "index", "reshape", "sum", "max", "min"}


class Unseen:
    """parameters replaced on some path before anything has looked at them, and used afterwards"""

    def __init__(self, node):
        self.node, self.found = node, []
        self.p = set(params(node)) - {"self", "cls"}
        self.block(node.body, set(self.p))

    def reads(self, e, un):
        if e is None:
            return
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                un.discard(n.id)

    def store(self, t, un, line):
        for n in ast.walk(t):
            if isinstance(n, ast.Name):
                if isinstance(n.ctx, ast.Store) and n.id in un:
                    un.discard(n.id)
                    if any(isinstance(x, ast.Name) and x.id == n.id and isinstance(x.ctx, ast.Load) and x.lineno > line
                           for x in ast.walk(self.node)):
                        self.found.append((n.id, line))
                elif isinstance(n.ctx, ast.Load):
                    un.discard(n.id)

    def block(self, stmts, un):
        """the parameters unread at the end, or None"""
        for s in stmts:
            if un is None:
                return None
            un = self.stmt(s, un)
        return un

    def both(self, a, b):
        return a & b if a is not None and b is not None else (a if b is None else b)

    def stmt(self, s, un):
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            self.reads(s.value, un)
            if isinstance(s, ast.AugAssign):
                for n in ast.walk(s.target):
                    if isinstance(n, ast.Name):
                        un.discard(n.id)
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                self.store(t, un, s.lineno)
            return un
        if isinstance(s, ast.If):
            self.reads(s.test, un)
            return self.both(self.block(s.body, set(un)), self.block(s.orelse, set(un)))
        if isinstance(s, (ast.For, ast.While)):
            self.reads(s.iter if isinstance(s, ast.For) else s.test, un)
            b = set(un)
            if isinstance(s, ast.For):
                self.store(s.target, b, s.lineno)
            # a later round may read what an earlier one left
            for x in s.body:
                pass
            b = self.block(s.body, b)
            un = self.both(un, b) if b is not None else un & set()
            return self.block(s.orelse, un)
        if isinstance(s, ast.Try):
            a = self.block(s.body, set(un))
            for h in s.handlers:
                before = set(un)
                for x in s.body:
                    self.reads(x, before)
                a = self.both(a, self.block(h.body, before))
            return self.block(s.finalbody, a if a is not None else set())
        if isinstance(s, ast.With):
            for i in s.items:
                self.reads(i.context_expr, un)
            return self.block(s.body, un)
        if isinstance(s, (ast.Return, ast.Raise)):
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        self.reads(s, un)
        return un
