"""C31: every name, attribute and argument a function relies on exists on every path.

Definite assignment over the syntax tree.  A state is a reachability condition and, for every
local, the condition under which it has been assigned; conditions are boolean formulas over the
tests of the function (normalised, versioned by the assignments to what they mention), so that
correlated guards are understood.  Attributes, signatures and unpacking use class tables."""
import ast, builtins, itertools, json, os, re
from .report import Report, SRC

T, F = ("T",), ("F",)


def NOT(a):
    if a == T:
        return F
    if a == F:
        return T
    if a[0] == "not":
        return a[1]
    return ("not", a)


def AND(*xs):
    out = []
    for x in xs:
        if x == F:
            return F
        if x == T:
            continue
        for y in (x[1:] if x[0] == "and" else (x,)):
            if NOT(y) in out:
                return F
            if y not in out:
                out.append(y)
    return T if not out else out[0] if len(out) == 1 else ("and",) + tuple(out)


def OR(*xs):
    out = []
    for x in xs:
        if x == T:
            return T
        if x == F:
            continue
        for y in (x[1:] if x[0] == "or" else (x,)):
            if NOT(y) in out:
                return T
            if y not in out:
                out.append(y)
    return F if not out else out[0] if len(out) == 1 else ("or",) + tuple(out)


def atoms(f, acc=None):
    acc = set() if acc is None else acc
    if f[0] == "atom":
        acc.add(f)
    elif f[0] in ("and", "or", "not"):
        for x in f[1:]:
            atoms(x, acc)
    return acc


def val(f, m):
    k = f[0]
    if k == "T":
        return True
    if k == "F":
        return False
    if k == "atom":
        return m[f]
    if k == "not":
        return not val(f[1], m)
    if k == "and":
        return all(val(x, m) for x in f[1:])
    return any(val(x, m) for x in f[1:])


def possible(f, limit=14):
    """an assignment of the tests making f true, False, or None when there are too many tests"""
    if f == F:
        return False
    if f == T:
        return {}
    at = sorted(atoms(f), key=repr)
    if len(at) > limit:
        return None
    groups = {}
    for a in at:
        if a[1] == "eq":
            groups.setdefault(a[2], []).append(a)
    for bits in itertools.product([False, True], repeat=len(at)):
        m = dict(zip(at, bits))
        if any(sum(m[a] for a in g) > 1 for g in groups.values()):
            continue
        if val(f, m):
            return m
    return False


class State:
    def __init__(self, pc=T, d=None, ver=None):
        self.pc, self.d, self.ver = pc, dict(d or {}), dict(ver or {})

    def copy(self):
        return State(self.pc, self.d, self.ver)


def pick(c, a, b):
    """formula a when c else b"""
    return a if a == b else OR(AND(c, a), AND(NOT(c), b))


class Func:
    def __init__(self, chk, node, cls, outer=None):
        self.chk, self.node, self.cls, self.outer = chk, node, cls, outer
        self.where = ("%s.%s" % (cls, node.name) if cls else getattr(node, "name", "<lambda>"))
        self.count = [0]
        self.locals, self.globals = set(), set()
        self.collect(node)
        self.params = [a.arg for a in all_args(node.args)]
        self.loopstack = []
        self.fresh = 0
        self.counts = {n.args[0].id for n in ast.walk(node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)
                       and n.func.id == "range" and len(n.args) == 1 and isinstance(n.args[0], ast.Name)}

    # ---------------------------------------------------------------- scopes
    def collect(self, node):
        self.locals |= {a.arg for a in all_args(node.args)}
        body = node.body if isinstance(node.body, list) else [ast.Expr(node.body)]
        for s in body:
            self.coll(s)
        self.locals -= self.globals

    def coll(self, n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            self.locals.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            self.locals.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                self.locals.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            self.globals |= set(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            self.locals.add(n.name)
        for c in ast.iter_child_nodes(n):
            self.coll(c)

    # ------------------------------------------------------------ conditions
    def key(self, e, st):
        """text of an expression with the versions of what it mentions"""
        names = sorted({n.id for n in ast.walk(e) if isinstance(n, ast.Name)} |
                       {ast.unparse(n) for n in ast.walk(e) if isinstance(n, ast.Attribute)})
        return ast.unparse(e) + "|" + ",".join("%s%d" % (n, st.ver[n]) for n in names if n in st.ver)

    def formula(self, e, st):
        if isinstance(e, ast.BoolOp):
            fs = [self.formula(x, st) for x in e.values]
            return AND(*fs) if isinstance(e.op, ast.And) else OR(*fs)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return NOT(self.formula(e.operand, st))
        if isinstance(e, ast.Constant):
            return T if e.value else F
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, op, b = e.left, e.ops[0], e.comparators[0]
            if isinstance(op, (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
                if isinstance(a, ast.Constant) and not isinstance(b, ast.Constant):
                    a, b = b, a
                neg = isinstance(op, (ast.IsNot, ast.NotEq))
                if isinstance(b, ast.Constant):
                    f = ("atom", "eq", self.key(a, st), repr(b.value))
                else:
                    f = ("atom", "same", tuple(sorted([self.key(a, st), self.key(b, st)])))
                return NOT(f) if neg else f
            if isinstance(op, (ast.In, ast.NotIn)):
                neg = isinstance(op, ast.NotIn)
                if isinstance(b, (ast.Tuple, ast.List, ast.Set)) and all(isinstance(x, ast.Constant) for x in b.elts):
                    f = OR(*[("atom", "eq", self.key(a, st), repr(x.value)) for x in b.elts])
                else:
                    f = ("atom", "in", self.key(a, st), self.key(b, st))
                return NOT(f) if neg else f
            # counts are whole numbers: n < 1 is n <= 0
            if isinstance(a, ast.Name) and a.id in self.counts and one(b) and isinstance(op, (ast.Lt, ast.GtE)):
                b, op = ast.Constant(0), ast.LtE() if isinstance(op, ast.Lt) else ast.Gt()
            if isinstance(b, ast.Name) and b.id in self.counts and one(a) and isinstance(op, (ast.Gt, ast.LtE)):
                a, op = ast.Constant(0), ast.GtE() if isinstance(op, ast.Gt) else ast.Lt()
            A, B = self.key(a, st), self.key(b, st)
            if isinstance(op, ast.Lt):
                return ("atom", "lt", A, B)
            if isinstance(op, ast.GtE):
                return NOT(("atom", "lt", A, B))
            if isinstance(op, ast.Gt):
                return ("atom", "lt", B, A)
            if isinstance(op, ast.LtE):
                return NOT(("atom", "lt", B, A))
        return ("atom", "true", self.key(e, st))

    def new_atom(self, what):
        self.fresh += 1
        return ("atom", "free", "%s#%d" % (what, self.fresh))

    # -------------------------------------------------------------- reading
    def read(self, name, node, st):
        if name not in self.locals:
            return
        self.chk.rep.ob("local reads", 1)
        d = st.d.get(name, F)
        if d == T:
            return
        f = AND(st.pc, NOT(d))
        m = possible(f)
        if m is None:
            self.chk.rep.undec(self.where, "too many tests for %s" % name)
        elif m is not False and self.carried(name, st):
            self.chk.rep.undec(self.where, "%s comes from the round before: the test is assumed to exclude the first round" % name)
        elif m is not False:
            how = ", ".join("%s%s" % ("" if v else "not ", " ".join(str(x).split("|")[0] for x in a[1:]))
                            for a, v in sorted(m.items(), key=repr)) or "always"
            self.chk.bad("names are assigned before they are read", "%s: %s" % (self.where, name),
                         "line %d, when %s" % (node.lineno, how))

    def carried(self, name, st):
        """read in a loop whose every round ends with the name assigned, under a test of something
        the rounds change: the test may well tell the first round apart"""
        for fr in reversed(self.loopstack):
            s = fr["node"]
            ends = any(isinstance(x, ast.Assign) and any(isinstance(n, ast.Name) and n.id == name
                       for t in x.targets for n in ast.walk(t)) for x in s.body)
            if not ends or st.pc == fr["pc"]:
                continue
            moving = {n.id for x in s.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            if isinstance(s, ast.For):
                moving |= {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
            old = atoms(fr["pc"])
            for a in atoms(st.pc) - old:
                if moving & set(words(repr(a[2:]))):
                    return True
        return False

    def expr(self, e, st, bound=frozenset()):
        """check the reads of an expression"""
        if e is None:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id not in bound:
                if e.id in self.locals:
                    self.read(e.id, e, st)
                else:
                    self.chk.global_read(e.id, e, self)
            return
        if isinstance(e, ast.BoolOp):
            s = st.copy()
            for x in e.values:
                self.expr(x, s, bound)
                c = self.formula(x, s)
                s = s.copy()
                s.pc = AND(s.pc, c if isinstance(e.op, ast.And) else NOT(c))
            return
        if isinstance(e, ast.IfExp):
            self.expr(e.test, st, bound)
            c = self.formula(e.test, st)
            for x, f in ((e.body, c), (e.orelse, NOT(c))):
                s = st.copy()
                s.pc = AND(s.pc, f)
                self.expr(x, s, bound)
            return
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x]:
                self.expr(d, st, bound)
            inner = bound | {a.arg for a in all_args(e.args)}
            s = st.copy()
            # runs later: assigned somewhere in the function is enough
            s.d = {n: T for n in self.locals}
            self.expr(e.body, s, inner)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            b = bound
            s = st.copy()
            for g in e.generators:
                self.expr(g.iter, s, b)
                b = b | {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                for c in g.ifs:
                    self.expr(c, s, b)
                    s = s.copy()
                    s.pc = AND(s.pc, self.formula(c, s))
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.expr(x, s, b)
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value, st, bound)
            self.assign(e.target, st)
            return
        if isinstance(e, ast.Attribute):
            self.chk.attribute(e, self, st, bound)
        if isinstance(e, ast.Call):
            self.chk.call(e, self, st, bound)
        if isinstance(e, ast.Subscript) and isinstance(e.ctx, ast.Load):
            self.chk.subscript(e, self, st, bound)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword, ast.Slice)):
                self.expr(c.value if isinstance(c, ast.keyword) else c, st, bound)

    # ------------------------------------------------------------- assigning
    def assign(self, t, st):
        if isinstance(t, ast.Name):
            if t.id in self.locals:
                st.d[t.id] = T
            st.ver[t.id] = self.bump()
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.assign(x, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, st)
        else:
            if isinstance(t, ast.Attribute):
                self.expr(t.value, st)
                st.ver[ast.unparse(t)] = self.bump()
            elif isinstance(t, ast.Subscript):
                self.expr(t.value, st)
                self.expr(t.slice, st)
                if isinstance(t.slice, ast.Constant):
                    st.d["[%s]%r" % (ast.unparse(t.value), t.slice.value)] = T

    def bump(self):
        self.count[0] += 1
        return self.count[0]

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        """st or None when the end is not reached"""
        for s in stmts:
            if st is None:
                return None
            self.chk.rep.ob("statements", 1)
            st = self.stmt(s, st)
        return st

    def join(self, c, a, b):
        if a is None or b is None:
            return a or b
        st = State(OR(a.pc, b.pc))
        for n in set(a.d) | set(b.d):
            st.d[n] = pick(c, a.d.get(n, F), b.d.get(n, F))
        for n in set(a.ver) | set(b.ver):
            x, y = a.ver.get(n), b.ver.get(n)
            st.ver[n] = x if x == y else self.bump()
        return st

    def either(self, a, b):
        """one of two states, not told which"""
        if a is None or b is None:
            return a or b
        return self.join(self.new_atom("either"), a, b)

    def stmt(self, s, st):
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            if isinstance(s, ast.AugAssign):
                t = s.target
                if isinstance(t, ast.Name):
                    self.read(t.id, t, st) if t.id in self.locals else self.chk.global_read(t.id, t, self)
                self.expr(s.value, st)
                self.assign(t, st)
                return st
            if s.value is None:
                return st
            self.expr(s.value, st)
            self.chk.unpack(s, self, st)
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                self.assign(t, st)
            return st
        if isinstance(s, ast.Expr):
            self.expr(s.value, st)
            return st
        if isinstance(s, ast.Return):
            self.expr(s.value, st)
            return None
        if isinstance(s, ast.Raise):
            self.expr(s.exc, st)
            return None
        if isinstance(s, ast.Assert):
            self.expr(s.test, st)
            c = self.formula(s.test, st)
            st.pc = AND(st.pc, c)
            return None if st.pc == F else st
        if isinstance(s, ast.If):
            self.expr(s.test, st)
            c = self.formula(s.test, st)
            a, b = st.copy(), st.copy()
            a.pc, b.pc = AND(st.pc, c), AND(st.pc, NOT(c))
            a = None if a.pc == F else self.block(s.body, a)
            b = None if b.pc == F else self.block(s.orelse, b)
            return self.join(c, a, b)
        if isinstance(s, (ast.For, ast.While)):
            return self.loop(s, st)
        if isinstance(s, ast.Break):
            self.loopstack[-1]["break"].append(st)
            return None
        if isinstance(s, ast.Continue):
            self.loopstack[-1]["next"].append(st)
            return None
        if isinstance(s, ast.With):
            for i in s.items:
                self.expr(i.context_expr, st)
                if i.optional_vars:
                    self.assign(i.optional_vars, st)
            return self.block(s.body, st)
        if isinstance(s, ast.Try):
            before = st.copy()
            a = self.block(s.body, st.copy())
            if s.orelse and a is not None:
                a = self.block(s.orelse, a)
            out = a
            for h in s.handlers:
                b = before.copy()
                # the body may have stopped anywhere
                for n in ast.walk(ast.Module(s.body, [])):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        b.ver[n.id] = self.bump()
                if h.name:
                    b.d[h.name] = T
                self.expr(h.type, b) if h.type else None
                b = self.block(h.body, b)
                out = self.either(out, b)
            if s.finalbody:
                if out is None:
                    self.block(s.finalbody, before.copy())
                    return None
                return self.block(s.finalbody, out)
            return out
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                st.d[(a.asname or a.name).split(".")[0]] = T
            return st
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            st.d[s.name] = T
            if isinstance(s, ast.FunctionDef):
                for d in s.args.defaults:
                    self.expr(d, st)
                self.chk.function(s, self.cls, self)
            return st
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    st.d[t.id] = F
                    st.ver[t.id] = self.bump()
                else:
                    self.expr(t.value if hasattr(t, "value") else t, st)
            return st
        return st

    def may_be_empty(self, s):
        """loops over a count the caller passes may not run at all; sizes of the problem and of
        the grid are at least one"""
        it = s.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range":
            names = {n.id for a in it.args for n in ast.walk(a) if isinstance(n, ast.Name)}
            return bool(names & {p for p in self.params if p not in ("self",)} - SIZES)
        return False

    def loop(self, s, st):
        if isinstance(s, ast.For):
            self.expr(s.iter, st)
            empty = self.may_be_empty(s)
            c = T
            if empty:
                n = s.iter.args[0]
                c = (("atom", "lt", self.key(ast.Constant(0), st), self.key(n, st))
                     if len(s.iter.args) == 1 and isinstance(n, ast.Name) and n.id in self.counts
                     else ("atom", "free", "loop at line %d runs" % s.lineno))
        else:
            self.expr(s.test, st)
            c = self.formula(s.test, st)
        body = st.copy()
        body.pc = AND(st.pc, c)
        # values tested in the body may differ from those tested before
        for n in ast.walk(ast.Module(s.body, [])):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                body.ver[n.id] = self.bump()
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                body.ver[ast.unparse(n)] = self.bump()
        if isinstance(s, ast.For):
            self.assign(s.target, body)
        self.loopstack.append({"break": [], "next": [], "node": s, "pc": body.pc})
        end = self.block(s.body, body)
        fr = self.loopstack.pop()
        for x in fr["next"]:
            end = self.either(end, x)
        # leaving normally: after the last round, or without one
        skip = st.copy()
        skip.pc = AND(st.pc, NOT(c))
        if end is not None:
            end.pc = AND(st.pc, c)
        out = end if c == T else self.join(c, end, skip) if end is not None else skip
        if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value:
            out = None
        if out is not None:
            out.pc = st.pc
            if s.orelse:
                out = self.block(s.orelse, out)
        for x in fr["break"]:
            x = x.copy()
            out = self.either(out, x)
        if out is not None:
            out.pc = st.pc if not isinstance(s, ast.While) or True else out.pc
            for n in ast.walk(ast.Module(s.body, [])):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.ver[n.id] = self.bump()
        return out

    def run(self):
        st = State()
        for p in self.params:
            st.d[p] = T
        if self.outer is not None:
            pass
        self.chk.rep.analysed.add(self.where)
        self.block(self.node.body, st)


def one(e):
    return isinstance(e, ast.Constant) and e.value == 1


def words(s):
    return re.findall(r"[A-Za-z_]\w*", s)


SIZES = {"n_segments", "n_points", "n_phases", "deg", "degree", "n"}


def all_args(a):
    return a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else [])


OBJ = set(dir(object)) | {"__dict__", "__name__", "__module__"}


class Checker:
    def __init__(self, path):
        self.rep = Report()
        self.tree = ast.parse(open(path).read())
        self.classes, self.funcs, self.globals = {}, {}, set(dir(builtins)) | {"__name__", "__file__", "__doc__"}
        self.modules = {}          # alias -> library module
        lib = os.path.join(os.path.dirname(os.path.abspath(__file__)), "libnames.json")
        self.lib = json.load(open(lib)) if os.path.exists(lib) else {}
        self.top(self.tree.body)
        for c in self.classes.values():
            c["attrs"] = set()
            for m in c["methods"].values():
                self.own_attrs(m, c["attrs"])
        self.types = {}            # (class, attribute) -> class
        for cname, c in self.classes.items():
            for m in c["methods"].values():
                self.attr_types(cname, m)

    def top(self, body):
        for s in body:
            if isinstance(s, ast.ClassDef):
                self.globals.add(s.name)
                self.classes[s.name] = {"bases": [b.id for b in s.bases if isinstance(b, ast.Name)],
                                        "foreign": any(not isinstance(b, ast.Name) for b in s.bases),
                                        "methods": {f.name: f for f in s.body if isinstance(f, ast.FunctionDef)},
                                        "class": {t.id for x in s.body if isinstance(x, (ast.Assign, ast.AnnAssign))
                                                  for t in (x.targets if isinstance(x, ast.Assign) else [x.target])
                                                  if isinstance(t, ast.Name)}}
            elif isinstance(s, ast.FunctionDef):
                self.globals.add(s.name)
                self.funcs[s.name] = s
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    self.globals.add((a.asname or a.name).split(".")[0])
                    if isinstance(s, ast.Import):
                        self.modules[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for b in ("body", "orelse", "finalbody"):
                    self.top(getattr(s, b, []) or [])
                for h in getattr(s, "handlers", []):
                    self.top(h.body)
            for n in ast.walk(s) if not isinstance(s, (ast.ClassDef, ast.FunctionDef)) else ():
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    self.globals.add(n.id)

    def own_attrs(self, m, acc):
        if not m.args.args:
            return
        me = m.args.args[0].arg
        for n in ast.walk(m):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) \
                    and n.value.id == me:
                acc.add(n.attr)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1 \
                    and isinstance(n.args[1], ast.Constant):
                acc.add(n.args[1].value)

    def annotated(self, a):
        x = a.annotation
        if isinstance(x, ast.Constant) and isinstance(x.value, str):
            return x.value if x.value in self.classes else None
        if isinstance(x, ast.Name):
            return x.id if x.id in self.classes else None
        return None

    def attr_types(self, cname, m):
        par = {a.arg: self.annotated(a) for a in all_args(m.args)}
        for n in ast.walk(m):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) \
                    and isinstance(n.targets[0].value, ast.Name) and n.targets[0].value.id == "self":
                v, t = n.value, None
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in self.classes:
                    t = v.func.id
                elif isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "deepcopy" \
                        and v.args and isinstance(v.args[0], ast.Name):
                    t = par.get(v.args[0].id)
                elif isinstance(v, ast.Name):
                    t = par.get(v.id)
                k = (cname, n.targets[0].attr)
                self.types[k] = t if k not in self.types or self.types[k] == t else None

    def mro(self, c):
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if x in self.classes and x not in out:
                out.append(x)
                todo = self.classes[x]["bases"] + todo
        return out

    def subclasses(self, c):
        return [x for x in self.classes if c in self.mro(x)]

    def open_class(self, c):
        return any(self.classes[x]["foreign"] or any(b not in self.classes and b != "object" for b in self.classes[x]["bases"])
                   or "__getattr__" in self.classes[x]["methods"] for x in self.mro(c))

    def has_attr(self, c, a):
        return a in OBJ or self.open_class(c) or any(
            a in self.classes[x]["attrs"] or a in self.classes[x]["class"] or a in self.classes[x]["methods"]
            for x in self.mro(c))

    def bad(self, rule, construct, detail):
        self.rep.add("C31", rule, construct, detail)

    # ----------------------------------------------------------------- rules
    def global_read(self, name, node, fn):
        o = fn.outer
        while o is not None:
            if name in o.locals:
                return
            o = o.outer
        self.rep.ob("global reads", 1)
        if name not in self.globals:
            self.bad("names exist", "%s: %s" % (fn.where, name), "line %d: never defined" % node.lineno)

    def type_of(self, e, fn):
        """library class of the value of an expression, when the source says so"""
        if isinstance(e, ast.Name):
            if e.id in fn.locals:
                if fn.cls and fn.params and e.id == fn.params[0] and not is_static(fn.node) and fn.outer is None \
                        and not reassigned(fn.node, e.id):
                    return fn.cls
                for a in all_args(fn.node.args):
                    if a.arg == e.id and self.annotated(a) and not reassigned(fn.node, e.id):
                        return self.annotated(a)
                ts = set()
                for n in ast.walk(fn.node):
                    if isinstance(n, (ast.For, ast.With, ast.AugAssign, ast.NamedExpr)) and any(
                            isinstance(x, ast.Name) and x.id == e.id and isinstance(x.ctx, ast.Store) for x in ast.walk(n)):
                        if not isinstance(n, (ast.For, ast.With)) or binds(n, e.id):
                            return None
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Name) and t.id == e.id:
                                v = n.value
                                ts.add(v.func.id if isinstance(v, ast.Call) and isinstance(v.func, ast.Name)
                                       and v.func.id in self.classes else None)
                            elif any(isinstance(x, ast.Name) and x.id == e.id and isinstance(x.ctx, ast.Store)
                                     for x in ast.walk(t)):
                                ts.add(None)
                if e.id in fn.params:
                    ts.add(None)
                return ts.pop() if len(ts) == 1 else None
            if fn.outer is not None:
                return self.type_of(e, fn.outer) if e.id in fn.outer.locals or fn.outer.outer else None
            return None
        if isinstance(e, ast.Attribute):
            c = self.type_of(e.value, fn)
            if c:
                for x in self.mro(c):
                    if (x, e.attr) in self.types:
                        return self.types[(x, e.attr)]
            return None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            if e.func.id in self.classes and e.func.id not in fn.locals:
                return e.func.id
            if e.func.id == "super" and fn.cls and self.classes[fn.cls]["bases"]:
                b = self.classes[fn.cls]["bases"][0]
                return b if b in self.classes else None
        return None

    def attribute(self, e, fn, st, bound):
        if not isinstance(e.ctx, ast.Load):
            return
        root = e.value
        if isinstance(root, ast.Name) and root.id in bound:
            return
        dotted = ast.unparse(e)
        if isinstance(root, ast.Name) and root.id not in fn.locals and root.id in self.classes:
            self.rep.ob("class attribute reads", 1)
            c = root.id
            if not (e.attr in OBJ or e.attr in ("__init__",) or self.open_class(c) or any(
                    e.attr in self.classes[x]["class"] or e.attr in self.classes[x]["methods"] for x in self.mro(c))):
                self.bad("attributes exist", "%s: %s" % (fn.where, dotted), "line %d: class %s defines no %s" % (
                    e.lineno, c, e.attr))
            return
        m = self.module_of(root, fn)
        if m is not None and m in self.lib:
            self.rep.ob("library names", 1)
            if e.attr not in self.lib[m] and m + "." + e.attr not in self.lib:
                self.bad("library names exist", "%s: %s" % (fn.where, dotted), "line %d: %s has no %s" % (e.lineno, m, e.attr))
            return
        c = self.type_of(root, fn)
        if c is None:
            return
        self.rep.ob("attribute reads", 1)
        if not self.has_attr(c, e.attr):
            g = ("atom", "true", "hasattr(%s, %r)" % (ast.unparse(root), e.attr))
            if any(a[1] == "true" and a[2].startswith(g[2]) for a in atoms(st.pc)):
                return
            self.bad("attributes exist", "%s: %s" % (fn.where, dotted), "line %d: no method of %s defines %s" % (
                e.lineno, c, e.attr))

    def module_of(self, e, fn):
        if isinstance(e, ast.Name):
            if e.id in fn.locals:
                for n in ast.walk(fn.node):
                    if isinstance(n, ast.Import):
                        for a in n.names:
                            if (a.asname or a.name.split(".")[0]) == e.id:
                                return a.name if a.asname else a.name.split(".")[0]
                return None
            return self.modules.get(e.id)
        if isinstance(e, ast.Attribute):
            m = self.module_of(e.value, fn)
            if m is not None and m + "." + e.attr in self.lib:
                return m + "." + e.attr
        return None

    def targets(self, e, fn):
        """(function node, bound arguments skipped, label) of a call, [] when not known"""
        f = e.func
        if isinstance(f, ast.Name):
            if f.id in fn.locals:
                return []
            o = fn.outer
            while o is not None:
                if f.id in o.locals:
                    return []
                o = o.outer
            if f.id in self.funcs:
                return [(self.funcs[f.id], 0, f.id)]
            if f.id in self.classes and not self.open_class(f.id):
                for x in self.mro(f.id):
                    if "__init__" in self.classes[x]["methods"]:
                        return [(self.classes[x]["methods"]["__init__"], 1, f.id)]
            return []
        if not isinstance(f, ast.Attribute):
            return []
        if isinstance(f.value, ast.Name) and f.value.id not in fn.locals and f.value.id in self.classes:
            for x in self.mro(f.value.id):
                m = self.classes[x]["methods"].get(f.attr)
                if m is not None:
                    return [(m, 1 if is_class(m) else 0, "%s.%s" % (x, f.attr))]
            return []
        c = self.type_of(f.value, fn)
        if c is None:
            return []
        sup = isinstance(f.value, ast.Call)
        out = []
        for k in ([c] if sup or (isinstance(f.value, ast.Call)) else [c] + [x for x in self.subclasses(c) if x != c]):
            for x in self.mro(k):
                if f.attr in self.classes[x]["attrs"]:
                    return self.stored_function(x, f.attr)
                m = self.classes[x]["methods"].get(f.attr)
                if m is not None:
                    t = (m, 0 if is_static(m) else 1, "%s.%s" % (x, f.attr))
                    if t not in out:
                        out.append(t)
                    break
        return out

    def stored_function(self, cls, attr):
        """self.f = self.get_f(..) where every return of get_f is a method"""
        for m in self.classes[cls]["methods"].values():
            for n in ast.walk(m):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and \
                        n.targets[0].attr == attr and isinstance(n.value, ast.Call) and \
                        isinstance(n.value.func, ast.Attribute) and isinstance(n.value.func.value, ast.Name) and \
                        n.value.func.value.id == "self":
                    g = next((self.classes[x]["methods"][n.value.func.attr] for x in self.mro(cls)
                              if n.value.func.attr in self.classes[x]["methods"]), None)
                    if g is None:
                        return []
                    rs = [r.value for r in ast.walk(g) if isinstance(r, ast.Return)]
                    if len(rs) == 1 and isinstance(rs[0], ast.Attribute) and isinstance(rs[0].value, ast.Name) and \
                            rs[0].value.id == g.args.args[0].arg:
                        t = next((self.classes[x]["methods"][rs[0].attr] for x in self.mro(cls)
                                  if rs[0].attr in self.classes[x]["methods"]), None)
                        if t is None:
                            return []
                        skip = 0 if is_static(t) else 1 if is_class(t) or not is_class(g) else 0
                        return [(t, skip, "%s.%s" % (cls, rs[0].attr))]
        return []

    def call(self, e, fn, st, bound):
        f = e.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in bound:
            return
        for m, skip, label in self.targets(e, fn):
            self.rep.ob("calls matched with a signature", 1)
            why = accepts(m, skip, e)
            if why:
                self.bad("calls match the signature", "%s: call of %s" % (fn.where, label), "line %d: %s" % (e.lineno, why))

    def unpack(self, s, fn, st):
        if not isinstance(s, ast.Assign) or len(s.targets) != 1 or not isinstance(s.targets[0], (ast.Tuple, ast.List)):
            return
        t = s.targets[0]
        if any(isinstance(x, ast.Starred) for x in t.elts):
            return
        n = len(t.elts)
        v = s.value
        if isinstance(v, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in v.elts):
            self.rep.ob("unpackings", 1)
            if len(v.elts) != n:
                self.bad("unpacked values match", "%s: %s" % (fn.where, ast.unparse(t)), "line %d: %d values for %d names" % (
                    s.lineno, len(v.elts), n))
            return
        if not isinstance(v, ast.Call):
            return
        for m, skip, label in self.targets(v, fn):
            if m.name == "__init__":
                continue
            for r in returns(m):
                self.rep.ob("unpackings", 1)
                if isinstance(r.value, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in r.value.elts) and \
                        len(r.value.elts) != n:
                    self.bad("unpacked values match", "%s: %s" % (fn.where, label), "line %d takes %d values, line %d "
                             "returns %d" % (s.lineno, n, r.lineno, len(r.value.elts)))

    def subscript(self, e, fn, st, bound):
        """entries of an options argument that may be left out are read under a guard"""
        if not (isinstance(e.value, ast.Name) and e.value.id in fn.params and isinstance(e.slice, ast.Constant)
                and isinstance(e.slice.value, str)):
            return
        if reassigned(fn.node, e.value.id):
            return
        a = next((x for x in all_args(fn.node.args) if x.arg == e.value.id), None)
        if a is None or not optional_dict(fn.node, e.value.id):
            return
        self.rep.ob("option reads", 1)
        d = st.d.get("[%s]%r" % (e.value.id, e.slice.value), F)
        g = ("atom", "in", repr(e.slice.value) + "|", fn.key(e.value, st))
        f = AND(st.pc, NOT(d), NOT(g))
        m = possible(f)
        if m:
            self.bad("options may be left out", "%s: %s[%r]" % (fn.where, e.value.id, e.slice.value),
                     "line %d reads it without a test for its presence" % e.lineno)

    def function(self, node, cls, outer=None):
        fn = Func(self, node, cls, outer)
        for d in node.args.defaults + [x for x in node.args.kw_defaults if x]:
            pass
        fn.run()

    def run(self):
        for name, f in self.funcs.items():
            self.function(f, None)
        for c, k in self.classes.items():
            for m in k["methods"].values():
                self.function(m, c)
        self.rep.rules = ["every local read is assigned under its path condition (guards correlated)",
                          "every global, attribute of a library class and library name exists",
                          "every call of a library function matches the signature of each possible target",
                          "unpacked results have as many parts as every return of each possible target",
                          "entries of optional option dictionaries are read under a test"]
        return self.rep


def optional_dict(node, name):
    """the parameter has a dictionary default, so that callers may leave entries out"""
    pos = node.args.posonlyargs + node.args.args
    for a, d in list(zip(pos[len(pos) - len(node.args.defaults):], node.args.defaults)) + \
            list(zip(node.args.kwonlyargs, node.args.kw_defaults)):
        if a.arg == name:
            return isinstance(d, ast.Dict)
    return node.args.kwarg is not None and node.args.kwarg.arg == name


def reassigned(node, name):
    return any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, (ast.Store, ast.Del)) for n in ast.walk(node))


def binds(n, name):
    ts = [n.target] if isinstance(n, ast.For) else [i.optional_vars for i in n.items if i.optional_vars]
    return any(isinstance(x, ast.Name) and x.id == name for t in ts for x in ast.walk(t))


def is_static(m):
    return any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in m.decorator_list)


def is_class(m):
    return any(isinstance(d, ast.Name) and d.id == "classmethod" for d in m.decorator_list)


def returns(m):
    out, todo = [], list(m.body)
    while todo:
        s = todo.pop()
        if isinstance(s, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(s, ast.Return):
            out.append(s)
        todo += list(ast.iter_child_nodes(s))
    return out


def accepts(m, skip, call):
    """why the call does not fit the signature, None when it does"""
    if any(isinstance(d, ast.Name) and d.id not in ("staticmethod", "classmethod", "property") or isinstance(d, ast.Call)
           for d in m.decorator_list):
        return None
    a = m.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if len(pos) < skip and not a.vararg:
        return "takes no instance"
    pos = pos[skip:]
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    n = sum(1 for x in call.args if not isinstance(x, ast.Starred))
    if n > len(pos) and not a.vararg:
        return "%d positional arguments, %d accepted" % (n, len(pos))
    given = set(pos[:n])
    kwonly = {x.arg for x in a.kwonlyargs}
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given:
            return "argument %s given twice" % k.arg
        if k.arg not in pos and k.arg not in kwonly and a.kwarg is None:
            return "no argument named %s" % k.arg
        given.add(k.arg)
    if star or dstar:
        return None
    need = pos[:len(pos) - len(a.defaults)] if len(a.defaults) <= len(pos) else []
    miss = [x for x in need if x not in given]
    miss += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in given]
    if miss:
        return "argument %s missing" % ", ".join(miss)
    return None


def run(seed, tier, path=SRC, prop=None):
    return Checker(path).run()
