"""Abstract interpreter: forward value analysis of the repository's source.

Each statement is evaluated on abstract values.  Branches with an undecided
condition are both analysed and joined with gates; loops with a symbolic trip
count are summarised from one generic iteration (recurrences for scalars,
indexed writes for arrays/lists/dicts, comprehensions for appends); calls into
the repository are inlined; numpy/casadi calls are modelled by `lib`.
"""
import ast
from . import terms as tm
from .terms import (T, lift, ite, ite_lazy, t_eq, t_le, t_lt, t_not, t_and, t_or, t_sum,
                    ZERO, ONE, TRUE, FALSE, decide, top, has_top, fresh, var0, sym, ev)
from .values import *
from .values import t_or_
from . import arrays as ar
from .arrays import Unsupported


class FrameC:
    def __init__(self, vars, parent, cls=None, fname=None, frozen=None):
        self.vars, self.parent, self.cls, self.fname, self.frozen = vars, parent, cls, fname, frozen

    def set(self, k, v):
        d = dict(self.vars)
        d[k] = v
        return FrameC(d, self.parent, self.cls, self.fname, self.frozen)


class ObjC:
    def __init__(self, cls, attrs, ext=None):
        self.cls, self.attrs, self.ext = cls, attrs, ext

    def set(self, k, v):
        d = dict(self.attrs)
        d[k] = v
        return ObjC(self.cls, d, self.ext)


class Event:
    def __init__(self, kind, where, data, facts, loops):
        self.kind, self.where, self.data = kind, where, data
        self.facts, self.loops = facts, loops

    def __repr__(self):
        return "Event(%s@%s)" % (self.kind, self.where)


class Module:
    """parsed source file"""

    def __init__(self, path):
        self.path = path
        self.src = open(path).read()
        self.tree = ast.parse(self.src)
        self.classes, self.functions, self.imports, self.consts = {}, {}, {}, {}
        for n in self.tree.body:
            if isinstance(n, ast.ClassDef):
                self.classes[n.name] = n
            elif isinstance(n, ast.FunctionDef):
                self.functions[n.name] = n
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.imports[a.asname or a.name] = "%s.%s" % (n.module, a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = n.value
        self.class_attrs = {}
        for c, node in self.classes.items():
            d = {}
            for m in node.body:
                if isinstance(m, ast.FunctionDef):
                    d[mangle(c, m.name)] = m
                elif isinstance(m, ast.Assign):
                    for t in m.targets:
                        if isinstance(t, ast.Name):
                            d[mangle(c, t.id)] = m.value
                elif isinstance(m, ast.AnnAssign) and m.value is not None and isinstance(m.target, ast.Name):
                    d[mangle(c, m.target.id)] = m.value
            self.class_attrs[c] = d

    def mro(self, c):
        out = []
        while c in self.classes:
            out.append(c)
            bases = [b.id for b in self.classes[c].bases if isinstance(b, ast.Name)]
            c = bases[0] if bases else None
        return out

    def find(self, cls, name):
        """(defining class, node) of a class attribute"""
        for c in self.mro(cls):
            if name in self.class_attrs[c]:
                return c, self.class_attrs[c][name]
        return None, None


def mangle(cls, name):
    if cls and name.startswith("__") and not name.endswith("__"):
        return "_%s%s" % (cls.lstrip("_"), name)
    return name


CANON = {"numpy": "np", "casadi": "ca", "matplotlib.pyplot": "plt", "scipy.special": "scipy.special"}


class Fall:
    def __init__(self, st):
        self.st = st


class Ret:
    def __init__(self, st, val):
        self.st, self.val = st, val


class Brk(Fall):
    pass


class Cont(Fall):
    pass


class Raise(Fall):
    pass


class OIf:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class StrictNumber(Exception):
    pass


def unknown_in(x):
    x = resolve(x)
    if isinstance(x, Gated):
        return unknown_in(x.a) or unknown_in(x.b)
    if isinstance(x, T):
        return tm.has_top(x)
    return isinstance(x, TopV)


def same_tree(a, b):
    a, b = resolve(a), resolve(b)
    if isinstance(a, Gated) and isinstance(b, Gated):
        return a.c == b.c and same_tree(a.a, b.a) and same_tree(a.b, b.b)
    return same_value(a, b)


class Interp:
    MAXDEPTH = 40

    def __init__(self, module, lib, models=None):
        self.mod = module
        self.lib = lib
        self.models = models or {}      # class name -> factory(interp, args, kwargs)
        self.st = {}
        self.ncell = 0
        self.events = []
        self.recording = True
        self.loops = []
        self.frames = []
        self.notes = {}
        self.classvals = {}
        self.called = set()             # functions analysed
        self.sites = set()
        self.unmodelled = {}
        self.loopcount = 0
        self.havocs = {}
        self.mutable = {}               # node of a module level, class level or default value -> its one object
        self.classcell = {}             # class -> attributes assigned to it while running
        self.init_statics()

    def init_statics(self):
        """mutable objects that exist once: class attributes, module constants, default arguments"""
        for c in self.mod.classes:
            self.classcell[c] = self.new(ObjC("<class>", {}))
        nodes = [n for d in self.mod.class_attrs.values() for n in d.values()] + list(self.mod.consts.values())
        for f in list(self.mod.functions.values()) + nodes:
            if isinstance(f, ast.FunctionDef):
                nodes = nodes + list(f.args.defaults) + [x for x in f.args.kw_defaults if x is not None]
        for n in nodes:
            if isinstance(n, (ast.Dict, ast.List)) and not (n.keys if isinstance(n, ast.Dict) else n.elts) or \
                    isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("dict", "list") and \
                    not n.args and not n.keywords:
                isd = isinstance(n, ast.Dict) or isinstance(n, ast.Call) and n.func.id == "dict"
                self.mutable[id(n)] = self.new(DictVal(()) if isd else ListVal([]))

    # ------------------------------------------------------------- plumbing
    def note(self, node, msg):
        k = (getattr(node, "lineno", 0), str(msg)[:160])
        self.notes[k] = self.notes.get(k, 0) + 1

    def new(self, content):
        self.ncell += 1
        self.st[self.ncell] = content
        return Ref(self.ncell)

    def get(self, ref):
        return self.st[ref.cell]

    def put(self, ref, content):
        self.st[ref.cell] = content

    def event(self, kind, node, **data):
        if self.recording:
            self.events.append(Event(kind, self.where(node), {k: self.freeze(v) for k, v in data.items()},
                                     list(tm.FACTS), list(self.loops)))

    def where(self, node):
        f = self.frames[-1] if self.frames else None
        fr = self.get(f) if f else None
        name = ("%s.%s" % (fr.cls, fr.fname) if fr and fr.cls else (fr.fname if fr else "?"))
        return (name, getattr(node, "lineno", 0))

    # ---------------------------------------------------------------- freeze
    def freeze(self, v, seen=None):
        """snapshot: lists and dicts by value"""
        if isinstance(v, Ref):
            c = self.st.get(v.cell)
            seen = seen or ()
            if v.cell in seen:
                return v
            if isinstance(c, ListVal):
                return self.freeze_list(c, seen + (v.cell,))
            if isinstance(c, DictVal):
                return DictVal([(w[0], w[1], w[2], self.freeze(w[3], seen + (v.cell,)))
                                for w in c.writes], c.ext, c.removed)
            return v
        if isinstance(v, SubRef):
            return v.val
        if isinstance(v, tuple):
            return tuple(self.freeze(x, seen) for x in v)
        if isinstance(v, Gated):
            return gate(v.c, self.freeze(v.a, seen), self.freeze(v.b, seen))
        if isinstance(v, list):
            return [self.freeze(x, seen) for x in v]
        return v

    def freeze_list(self, c, seen=()):
        if isinstance(c, WList):
            return WList(self.freeze_list(c.base, seen),
                         [W(w.binders, w.cond, w.region, self.freeze(w.val, seen)) for w in c.writes])
        if isinstance(c, CarryList):
            return c

        def fp(p):
            if isinstance(p, Item):
                x = self.freeze(p.v, seen)
                return p if x is p.v else Item(x)
            if isinstance(p, Opt):
                return Opt(p.c, [fp(q) for q in p.a], [fp(q) for q in p.b])
            if isinstance(p, Comp) and any(isinstance(q, Item) and isinstance(q.v, Ref) for q in p.parts):
                return Comp(p.v, p.n, [fp(q) if isinstance(q, Item) else q for q in p.parts])
            return p
        return ListVal([fp(p) for p in c.parts])

    def freeze_func(self, v, old_cells, depth=0):
        """make values independent of cells created inside a loop body"""
        if isinstance(v, Func):
            if v.frame is not None and v.frame.cell not in old_cells and v.frozen is None and depth < 6:
                f = Func(v.node, v.frame, v.cls, v.name, v.defaults, v.kwdefaults, v.static)
                f.frozen = {}
                fr = self.st[v.frame.cell]
                while fr is not None:
                    for k, x in fr.vars.items():
                        if k not in f.frozen:
                            f.frozen[k] = x
                    if fr.frozen:
                        for k, x in fr.frozen.items():
                            f.frozen.setdefault(k, x)
                    p = fr.parent
                    fr = self.st.get(p.cell) if p is not None and p.cell not in old_cells else None
                names = {n.id for n in ast.walk(v.node) if isinstance(n, ast.Name)}
                f.frozen = {k: self.freeze_func(self.freeze(x), old_cells, depth + 1)
                            for k, x in f.frozen.items() if k in names}
                return f
            return v
        if isinstance(v, tuple):
            return tuple(self.freeze_func(x, old_cells, depth) for x in v)
        if isinstance(v, Gated):
            return Gated(v.c, self.freeze_func(v.a, old_cells, depth), self.freeze_func(v.b, old_cells, depth))
        return v

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts):
        """returns an outcome; self.st is the state of the Fall outcome"""
        for k, s in enumerate(stmts):
            o = self.exec_stmt(s)
            o = self.simplify_out(o)
            if isinstance(o, Fall) and type(o) is Fall:
                self.st = o.st
                continue
            rest = stmts[k + 1:]
            return self.map_fall(o, rest)
        return Fall(self.st)

    def map_fall(self, o, rest):
        if isinstance(o, OIf):
            tm.FACTS.append((o.c, True))
            a = self.map_fall(o.a, rest)
            tm.FACTS.pop()
            tm.FACTS.append((o.c, False))
            b = self.map_fall(o.b, rest)
            tm.FACTS.pop()
            return self.simplify_out(OIf(o.c, a, b))
        if type(o) is Fall:
            self.st = o.st
            return self.exec_block(rest) if rest else Fall(self.st)
        return o

    def simplify_out(self, o):
        if not isinstance(o, OIf):
            return o
        a, b = self.simplify_out(o.a), self.simplify_out(o.b)
        if isinstance(a, Raise):
            return b
        if isinstance(b, Raise):
            return a
        if type(a) is Fall and type(b) is Fall:
            return Fall(self.merge(o.c, a.st, b.st))
        if type(a) is Cont and type(b) is Cont:
            return Cont(self.merge(o.c, a.st, b.st))
        if isinstance(a, Ret) and isinstance(b, Ret):
            return Ret(self.merge(o.c, a.st, b.st), gate(o.c, a.val, b.val))
        return OIf(o.c, a, b)

    def merge(self, c, s1, s2):
        if s1 is s2:
            return s1
        out = dict(s1)
        for k, y in s2.items():
            x = s1.get(k)
            if x is None:
                out[k] = y
            elif x is not y:
                out[k] = self.merge_content(c, x, y)
        return out

    def merge_content(self, c, x, y):
        if isinstance(x, FrameC):
            d = {}
            for n in list(x.vars) + [m for m in y.vars if m not in x.vars]:
                d[n] = gate(c, x.vars.get(n, UNDEF), y.vars.get(n, UNDEF))
            return FrameC(d, x.parent, x.cls, x.fname, x.frozen)
        if isinstance(x, ObjC):
            d = {}
            for n in list(x.attrs) + [m for m in y.attrs if m not in x.attrs]:
                d[n] = gate(c, x.attrs.get(n, UNDEF), y.attrs.get(n, UNDEF))
            return ObjC(x.cls, d, x.ext)
        if isinstance(x, ListVal):
            return merge_list(c, x, y)
        if isinstance(x, DictVal):
            return merge_dict(c, x, y)
        raise Unsupported("merge")

    curnode = None

    def exec_stmt(self, s):
        self.curnode = s
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.note(s, "statement %s" % type(s).__name__)
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    self.setvar(n.id, TopV("stmt"))
            return Fall(self.st)
        try:
            o = m(s)
        except Unsupported as e:
            self.note(s, "unsupported: %s" % e)
            self.clobber(s)
            return Fall(self.st)
        return o if o is not None else Fall(self.st)

    def clobber(self, s):
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.setvar(n.id, TopV("unsupported"))
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store):
                try:
                    self.assign(n, TopV("unsupported"))
                except Exception:
                    pass

    def s_Pass(self, s):
        pass

    def s_Expr(self, s):
        if not isinstance(s.value, ast.Constant):
            self.eval(s.value)

    def s_Import(self, s):
        for a in s.names:
            n = a.asname or a.name.split(".")[0]
            self.setvar(n, ModuleV(CANON.get(a.name if a.asname else n, a.name if a.asname else n)))

    def s_ImportFrom(self, s):
        for a in s.names:
            self.setvar(a.asname or a.name, ModuleV("%s.%s" % (CANON.get(s.module, s.module), a.name)))

    def s_Global(self, s):
        pass

    def s_Nonlocal(self, s):
        for n in s.names:
            fr = self.get(self.frames[-1])
            nl = dict(fr.vars)
            nl.setdefault("$nonlocal", ())
            nl["$nonlocal"] = tuple(nl["$nonlocal"]) + (n,)
            self.put(self.frames[-1], FrameC(nl, fr.parent, fr.cls, fr.fname, fr.frozen))

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def s_AugAssign(self, s):
        load = ast.copy_location(ast.parse(ast.unparse(s.target), mode="eval").body, s)
        cur = self.eval(load)
        rhs = self.eval(s.value)
        cv = resolve(cur)
        op = type(s.op).__name__
        if op == "Add" and isinstance(cv, Ref) and isinstance(self.get(cv), ListVal):
            self.list_extend(cv, rhs)
            return
        if isinstance(cv, Arr) and cv.kind == "np":
            self.event("inplace", s, target=cv)
        self.assign(s.target, self.binop(op, cur, rhs, s))

    def s_Return(self, s):
        v = self.eval(s.value) if s.value is not None else None
        return Ret(self.st, v)

    def s_Raise(self, s):
        self.event("raise", s)
        return Raise(self.st)

    def s_Break(self, s):
        return Brk(self.st)

    def s_Continue(self, s):
        return Cont(self.st)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.setvar(t.id, UNDEF)
            elif isinstance(t, ast.Subscript):
                b = resolve(self.eval(t.value))
                k = self.eval(t.slice)
                if isinstance(b, Ref) and isinstance(self.get(b), DictVal):
                    self.dict_remove(b, k)

    def s_Assert(self, s):
        try:
            c = self.eval(s.test)
            self.event("assert", s, cond=self.truthy(c))
        except Unsupported as e:
            self.note(s, e)
            self.event("assert", s, cond=top("assert"))

    def s_FunctionDef(self, s):
        self.setvar(s.name, self.make_func(s))

    def s_With(self, s):
        for i in s.items:
            v = self.eval(i.context_expr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v)
        return self.exec_block(s.body)

    def s_Try(self, s):
        # normal path only; handlers analysed for effects under an unknown guard
        o = self.exec_block(s.body + s.orelse)
        c = top("exception")
        for h in s.handlers:
            if type(o) is Fall:
                st0 = o.st
                self.st = dict(st0)
                oh = self.exec_block(h.body)
                o = self.simplify_out(OIf(c, oh, Fall(st0)))
                if type(o) is Fall:
                    self.st = o.st
        if s.finalbody and type(o) is Fall:
            self.st = o.st
            return self.exec_block(s.finalbody)
        return o

    def s_If(self, s):
        c = self.truthy(self.eval(s.test))
        k = decide(c)
        if k is True:
            return self.exec_block(s.body)
        if k is False:
            return self.exec_block(s.orelse)
        st0 = self.st
        tm.FACTS.append((c, True))
        pushed = self.push_facts(c, True)
        self.st = dict(st0)
        a = self.exec_block(s.body)
        for _ in range(pushed + 1):
            tm.FACTS.pop()
        tm.FACTS.append((c, False))
        pushed = self.push_facts(c, False)
        self.st = dict(st0)
        b = self.exec_block(s.orelse)
        for _ in range(pushed + 1):
            tm.FACTS.pop()
        o = self.simplify_out(OIf(c, a, b))
        if type(o) is Fall:
            self.st = o.st
        return o

    def push_facts(self, c, val):
        """conjuncts implied by c == val"""
        n = 0
        if len(c.m) == 1:
            (mono, k), = c.m.items()
            if k == 1 and len(mono) == 1 and mono[0][1] == 1:
                a = mono[0][0]
                if a.op == "not":
                    tm.FACTS.append((a.args[0], not val))
                    n += 1 + self.push_facts(a.args[0], not val)
                elif a.op == "and" and val:
                    for x in a.args:
                        tm.FACTS.append((x, True))
                        n += 1 + self.push_facts(x, True)
        return n

    def s_While(self, s):
        # unknown trip count: everything assigned in the body becomes unknown
        entry = self.st
        rec, self.recording = self.recording, self.recording
        self.clobber(s)
        saved = dict(self.st)
        self.loops.append((fresh("wh"), top("while")))
        o = self.exec_block(s.body)
        self.loops.pop()
        self.st = saved
        for cell, c in list(entry.items()):
            pass
        self.clobber(s)
        return Fall(self.st)

    def s_For(self, s):
        if s.orelse:
            if any(isinstance(x, ast.Break) for b in s.body for x in ast.walk(b)):
                raise Unsupported("else clause of a loop with break")
            it = self.iter_spec(self.eval(s.iter))
            o = self.simplify_out(self.for_over(it, lambda v: self.assign(s.target, v), s.body, s))
            if type(o) is not Fall:
                raise Unsupported("else clause of a loop")
            self.st = o.st
            return self.exec_block(s.orelse)
        it = self.iter_spec(self.eval(s.iter))
        return self.for_over(it, lambda v: self.assign(s.target, v), s.body, s)

    # ---------------------------------------------------------------- loops
    def iter_spec(self, v):
        """('items', [..]) or ('sym', n, getter) or ('top',)"""
        v = resolve(v)
        if isinstance(v, Ref):
            c = self.get(v)
            if isinstance(c, ListVal):
                its = flat_items(c.parts)
                if its is not None:
                    return ("items", its)
                v = ("deref", v)
                ref = v[1]
                n = c.length()
                return ("sym", n, lambda i: self.list_get(ref, i))
            if isinstance(c, DictVal):
                return self.dict_iter(v, c)
            return ("top",)
        if isinstance(v, ListVal):
            its = flat_items(v.parts)
            if its is not None:
                return ("items", its)
            return ("sym", v.length(), lambda i: v.get(i))
        if isinstance(v, DictVal):
            return self.dict_iter(v, v)
        if isinstance(v, tuple):
            return ("items", list(v))
        if isinstance(v, RangeV):
            if v.n.is_const() and v.n.const() <= 12:
                return ("items", [v.lo + v.step * k for k in range(int(v.n.const()))])
            return ("sym", v.n, lambda i: v.lo + v.step * i)
        if isinstance(v, Arr):
            n = v.shape[0]
            if n.is_const() and n.const() <= 12:
                return ("items", [ar.getitem(v, (lift(k),)) for k in range(int(n.const()))])
            return ("sym", n, lambda i: ar.getitem(v, (i,)))
        if isinstance(v, Zip):
            subs = [self.iter_spec(x) for x in v.its]
            if all(x[0] == "items" for x in subs):
                m = min(len(x[1]) for x in subs)
                return ("items", [tuple(x[1][k] for x in subs) for k in range(m)])
            if any(x[0] == "top" for x in subs):
                return ("top",)
            n, gets = None, []
            for x in subs:
                if x[0] == "items":
                    m = n
                    n = lift(len(x[1])) if m is None else \
                        ite_lazy(t_le(m, lift(len(x[1]))), lambda m=m: m, lambda x=x: lift(len(x[1])))
                    gets.append(lambda i, x=x: parts_get([Item(y) for y in x[1]], i))
                else:
                    m = n
                    n = x[1] if m is None or m == x[1] else ite_lazy(t_le(m, x[1]), lambda m=m: m, lambda x=x: x[1])
                    gets.append(x[2])
            return ("sym", n, lambda i: tuple(g(i) for g in gets))
        if isinstance(v, Enum):
            sub = self.iter_spec(v.it)
            if sub[0] == "items":
                return ("items", [(lift(k) + v.start, x) for k, x in enumerate(sub[1])])
            if sub[0] == "sym":
                return ("sym", sub[1], lambda i: (i + v.start, sub[2](i)))
            return ("top",)
        if isinstance(v, SetV):
            return self.iter_spec(v.lst)
        if isinstance(v, str):
            return ("items", list(v))
        if isinstance(v, Gated):
            return ("gated", v)
        return ("top",)

    def dict_iter(self, ref, c):
        if c.ext is None and all(isinstance(w[2], str) and not w[0] for w in c.writes) \
                and all(w[1] == TRUE for w in c.writes):
            keys = []
            for w in c.writes:
                if w[2] not in keys:
                    keys.append(w[2])
            return ("items", keys)
        if c.ext is None and len(c.writes) == 1 and len(c.writes[0][0]) == 1 and c.writes[0][1] == TRUE:
            (b, n), = c.writes[0][0]
            return ("sym", n, lambda i: vsubst(c.writes[0][2], b, i))
        if c.ext is not None and not c.writes:
            return ("sym", sym("len_" + c.ext), lambda i: StrT(("extkey:" + c.ext, i)))
        return ("top",)

    def for_over(self, it, bindf, body, node, iterf=None):
        if it[0] == "gated":
            g = it[1]
            st0 = self.st
            self.st = dict(st0)
            tm.FACTS.append((g.c, True))
            a = self.for_over(self.iter_spec(g.a), bindf, body, node)
            tm.FACTS.pop()
            self.st = dict(st0)
            tm.FACTS.append((g.c, False))
            b = self.for_over(self.iter_spec(g.b), bindf, body, node)
            tm.FACTS.pop()
            o = self.simplify_out(OIf(g.c, a, b))
            if type(o) is Fall:
                self.st = o.st
            return o
        if it[0] == "items":
            return self.unrolled(it[1], bindf, body)
        if it[0] == "sym":
            n, getter = it[1], it[2]

            def run(i):
                bindf(getter(i))
                return self.exec_block(body) if isinstance(body, list) else body()
            return self.sym_loop(n, run, node)
        self.note(node, "loop over unknown iterable")
        n = top("trip count")

        def run(i):
            bindf(TopV("iteration"))
            return self.exec_block(body) if isinstance(body, list) else body()
        return self.sym_loop(n, run, node, exact=False)

    def unrolled(self, items, bindf, body):
        if not items:
            return Fall(self.st)
        v = items[0]
        bindf(v)
        o = self.exec_block(body) if isinstance(body, list) else body()
        return self.after_iter(o, items[1:], bindf, body)

    def after_iter(self, o, items, bindf, body):
        o = self.simplify_out(o)
        if isinstance(o, OIf):
            # merge the leaves that go on iterating when both do
            tm.FACTS.append((o.c, True))
            a = self.after_iter(o.a, items, bindf, body)
            tm.FACTS.pop()
            tm.FACTS.append((o.c, False))
            b = self.after_iter(o.b, items, bindf, body)
            tm.FACTS.pop()
            r = self.simplify_out(OIf(o.c, a, b))
            if type(r) is Fall:
                self.st = r.st
            return r
        if isinstance(o, Brk):
            self.st = o.st
            return Fall(o.st)
        if isinstance(o, (Ret, Raise)):
            return o
        self.st = o.st
        return self.unrolled(items, bindf, body)

    def split_breaks(self, o, base, dirty):
        """(outcome without the leaves that break, condition of breaking); None: cannot be separated"""
        o = self.simplify_out(o)
        if isinstance(o, OIf):
            a, b = self.split_breaks(o.a, base, dirty), self.split_breaks(o.b, base, dirty)
            if a is None or b is None:
                return None
            c = t_or_(t_and(o.c, a[1]), t_and(t_not(o.c), b[1]))
            if a[0] is None or b[0] is None:
                return (b[0] if a[0] is None else a[0]), c
            return OIf(o.c, a[0], b[0]), c
        if isinstance(o, Brk):
            for l in self.diff(base, o.st, None):
                if l[0] != "var":
                    return None
                dirty.add(l)
            return None, TRUE
        return o, FALSE

    def settle(self, o):
        """(state, exits?, returns) of a body outcome"""
        o = self.simplify_out(o)
        if isinstance(o, OIf):
            sa, ea, ra = self.settle(o.a)
            sb, eb, rb = self.settle(o.b)
            if sa is None:
                return sb, True, ra + rb
            if sb is None:
                return sa, True, ra + rb
            return self.merge(o.c, sa, sb), ea or eb, ra + rb
        if isinstance(o, Ret):
            return None, True, [o]
        if isinstance(o, Brk):
            return o.st, True, []
        if isinstance(o, Raise):
            return None, False, []
        return o.st, False, []

    def loc_get(self, st, loc):
        c = st.get(loc[1])
        if c is None:
            return UNDEF
        if loc[0] == "var":
            return c.vars.get(loc[2], UNDEF)
        if loc[0] == "attr":
            return c.attrs.get(loc[2], UNDEF)
        return c

    def loc_set(self, st, loc, v):
        c = st[loc[1]]
        if loc[0] in ("var", "attr"):
            st[loc[1]] = c.set(loc[2], v)
        else:
            st[loc[1]] = v

    def diff(self, s0, s1, skip):
        out = []
        for k, x in s0.items():
            y = s1.get(k)
            if x is y or y is None:
                continue
            if isinstance(x, FrameC):
                for n in set(x.vars) | set(y.vars):
                    if n.startswith("$"):
                        continue
                    if not same_value(x.vars.get(n, UNDEF), y.vars.get(n, UNDEF)):
                        out.append(("var", k, n))
            elif isinstance(x, ObjC):
                for n in set(x.attrs) | set(y.attrs):
                    if not same_value(x.attrs.get(n, UNDEF), y.attrs.get(n, UNDEF)):
                        out.append(("attr", k, n))
            elif isinstance(x, ListVal):
                out.append(("list", k))
            elif isinstance(x, DictVal):
                out.append(("dict", k))
        return out

    def sym_loop(self, n, run, node, exact=True):
        self.loopcount += 1
        entry = self.st
        v = fresh("i")
        iv = var0(v)
        rec = self.recording
        self.recording = False
        facts0 = len(tm.FACTS)
        changed = {}
        base = dict(entry)
        st1 = None
        exits = False
        self.loops.append((v, n))
        nn = t_lt(iv, n)
        tm.FACTS.append((nn, True))
        try:
            for attempt in range(5):
                st = dict(entry)
                for loc in changed:
                    changed[loc] = self.make_carry(loc, self.loc_get(entry, loc))
                    self.loc_set(st, loc, changed[loc])
                base = dict(st)
                self.st = st
                o = run(iv)
                brk, dirty = FALSE, set()
                sp = self.split_breaks(o, base, dirty)
                if sp is not None and sp[0] is not None and sp[1] != FALSE:
                    o, brk = sp
                st1, exits, rets = self.settle(o)
                if st1 is None:
                    st1 = dict(base)
                new = [l for l in self.diff(base, st1, None) if l not in changed]
                if not new:
                    break
                for l in new:
                    changed[l] = None
            # ---- solve scalar recurrences
            closed = {}
            others = []
            sc = {}
            for loc, carry in changed.items():
                e0 = self.loc_get(entry, loc)
                r = self.loc_get(st1, loc)
                es = e0 if isinstance(e0, T) else (ar.scalar_of(e0) if isinstance(e0, Arr) else None)
                if es is not None:
                    rt = self.scalar_alts(r)
                    if rt is not None:
                        cs = carry if isinstance(carry, T) else ar.scalar_of(carry)
                        sc[loc] = (list(cs.fv())[0], es, rt)
                        continue
                others.append(loc)
            ph = {d for c in changed.values() if isinstance(c, DictVal) and isinstance(c.ext, CarryBase)
                  for d, _ in c.ext.reads}
            for l in sc:
                if ph & set(sc[l][2].fv()):
                    sc[l] = (sc[l][0], sc[l][1], top("carried dict"))
            self.solve_scalars(sc, v, closed, exits)
            for loc in list(closed):
                e0 = self.loc_get(entry, loc)
                if isinstance(e0, Arr):
                    closed[loc] = self.box_closed(closed[loc], e0)
            if brk != FALSE:
                # the iterations end before the first index at which the loop breaks
                for l, (nm, _, _) in sc.items():
                    if nm in brk.fv() and l in closed:
                        brk = brk.subst(nm, closed[l](iv))
                left = {nm for nm, _, _ in sc.values()} | ph | {x for l in changed for x in carry_names(changed[l])}
                if left & set(brk.fv()) or has_top(brk):
                    exits = True
                    for l in sc:
                        closed[l] = lambda k: top("loop with exit")
                    brk = FALSE
                else:
                    n_all, n = n, first_index(brk, v, n)
                    self.loops[-1] = (v, n)
                    tm.FACTS[facts0] = (t_lt(iv, n), True)
            # ---- final pass
            self.recording = rec
            passes = 1
            fresh_prev = {}
            for p in range(3):
                st = dict(entry)
                carr2 = {}
                for loc in changed:
                    if loc in closed:
                        self.loc_set(st, loc, closed[loc](iv))
                        continue
                    e0 = self.loc_get(entry, loc)
                    cv = self.make_carry(loc, e0)
                    if isinstance(cv, DictVal) and loc[0] == "dict":
                        w = self.loc_get(st1, loc)
                        pr = changed[loc].ext
                        if isinstance(w, DictVal) and w.ext is pr and not w.removed and not exits:
                            cv.ext.known(w.writes, pr.reads, v)
                        else:
                            cv.ext.bad = True
                    if isinstance(cv, CarryList):
                        w = self.loc_get(st1, loc)
                        if isinstance(w, WList) and not exits:
                            cv.mode = "read"
                            cv.widx = [x.region[0][0] if not x.binders and v in x.region[0][0].fv() else None
                                       for x in w.writes]
                    if isinstance(cv, Arr) and cv.carry is not None:
                        w = self.loc_get(st1, loc)
                        if isinstance(w, WArr) and not exits:
                            self.arr_read(cv, e0, w, v)
                    if loc in fresh_prev:
                        cv = gate(t_eq(iv, ZERO), unassigned(fresh_prev[loc]) if e0 is UNDEF else e0,
                                  fresh_prev[loc])
                    carr2[loc] = cv
                    self.loc_set(st, loc, cv)
                base = dict(st)
                self.st = st
                self.recording = rec and (p > 0 or not self.needs_prev(changed, closed, others))
                final_pass = self.recording or not rec
                o = run(iv)
                if brk != FALSE:
                    o = (self.split_breaks(o, base, set()) or (o,))[0]
                st2, exits2, rets2 = self.settle(o)
                if st2 is None:
                    st2 = dict(base)
                if p == 0 and self.needs_prev(changed, closed, others):
                    read = [l for l in others if isinstance(carr2.get(l), TopV)
                            and getattr(carr2[l], "was_read", False)]
                    stuck = []
                    for l in read:
                        x = self.freeze(self.loc_get(st2, l))
                        if unknown_in(x) and self.loc_get(entry, l) is not UNDEF:
                            stuck.append(l)
                        fresh_prev[l] = vsubst(x, v, iv - ONE)
                    if stuck:
                        fresh_prev.update(self.peel(stuck, entry, changed, closed, carr2, run, iv))
                    if rec or read:
                        continue
                break
        finally:
            self.recording = rec
            self.loops.pop()
            del tm.FACTS[facts0:]
        # ---- state after the loop
        final = dict(entry)
        for k, c in st2.items():
            if k not in final:
                final[k] = c
        for loc in changed:
            e0 = self.loc_get(entry, loc)
            if exits or not exact:
                self.loc_set(final, loc, self.topify(loc, e0))
                continue
            if loc in closed:
                self.loc_set(final, loc, closed[loc](n))
                continue
            self.st = st2
            x = self.freeze(self.loc_get(st2, loc)) if loc[0] in ("var", "attr") else self.loc_get(st2, loc)
            x = self.freeze_func(x, entry)
            self.loc_set(final, loc, self.loop_result(loc, e0, x, carr2.get(loc), v, n, st2))
        if brk != FALSE:
            for loc in dirty:
                self.loc_set(final, loc, gate(t_eq(n, n_all), self.loc_get(final, loc),
                                              TopV("value at the end of a loop")))
        self.st = final
        if rets2:
            return self.simplify_out(OIf(top("loop exit"), Ret(dict(self.st), TopV("return in loop")),
                                         Fall(self.st)))
        return Fall(self.st)

    def peel(self, stuck, entry, changed, closed, carries, run, iv):
        """values that no longer change after the first iteration"""
        rec = self.recording
        self.recording = False

        def once(k, val):
            st = dict(entry)
            for l in changed:
                if l in stuck:
                    self.loc_set(st, l, val[l])
                else:
                    self.loc_set(st, l, closed[l](k) if l in closed else carries[l])
            self.st = st
            st1, exits, rets = self.settle(run(k))
            if st1 is None or exits:
                return None
            return {l: self.freeze(self.loc_get(st1, l)) for l in stuck}
        try:
            a = once(ZERO, {l: self.loc_get(entry, l) for l in stuck})
            if a is None or any(unknown_in(x) for x in a.values()):
                return {}
            tm.FACTS.append((t_le(ONE, iv), True))
            try:
                b = once(iv, a)
            finally:
                tm.FACTS.pop()
            if b is None or not all(same_tree(a[l], b[l]) for l in stuck):
                return {}
            return a
        except Unsupported:
            return {}
        finally:
            self.recording = rec

    def scalar_alts(self, r):
        """the one number held by r on every alternative, or None"""
        for x in ar.alternatives(r):
            if not isinstance(x, T) and not (isinstance(x, Arr) and ar.scalar_of(x) is not None):
                return None
        return ar.to_scalar(r)

    def box_closed(self, f, e0):
        def g(k):
            x = f(k)
            return Arr(e0.kind, e0.shape, lambda *i: x)
        return g

    def needs_prev(self, changed, closed, others):
        return any(l[0] in ("var", "attr") for l in others)

    def make_carry(self, loc, e0):
        if loc[0] == "list":
            return CarryList(loc, e0)
        if loc[0] == "dict":
            return DictVal((), CarryBase(self, loc, e0), ())
        if isinstance(e0, T):
            return var0(fresh("c"))
        if isinstance(e0, Arr) and all(x == ONE for x in e0.shape) and loc[0] in ("var", "attr"):
            c = var0(fresh("c"))
            a = Arr(e0.kind, e0.shape, lambda *i: c)
            a.carry = loc
            return a
        if isinstance(e0, Arr):
            a = Arr(e0.kind, e0.shape, lambda *i: top("carried array %r" % (loc,)))
            a.carry = loc
            return a
        t = TopV("carried %s" % (loc[-1],))
        t.probe = True
        return t

    def arr_read(self, cv, e0, w, v):
        regs = [x.region for x in w.writes if not x.binders]
        if len(regs) != len(w.writes):
            return
        regs = [r for r in regs if any(nn is None and v in lo.fv() for lo, nn in r)]

        def f(*i):
            for r in regs:
                if all(nn is None and (lo - x).m == {} for (lo, nn), x in zip(r, i)):
                    return e0.f(*i)
            return top("carried array")
        cv.f = f

    def topify(self, loc, e0):
        if loc[0] == "list":
            return ListVal([Comp(fresh("w"), top("length"), [Item(TopV("loop with exit"))])])
        if loc[0] == "dict":
            d = DictVal(e0.writes, "unknown", ())
            return d
        return TopV("loop with exit: %s" % (loc[-1],))

    def solve_scalars(self, sc, v, closed, exits):
        iv = var0(v)
        names = {sc[l][0]: l for l in sc}
        work = dict(sc)
        cur = {l: sc[l][2] for l in sc}
        if exits:
            for l in sc:
                closed[l] = lambda k: top("loop with exit")
            return
        progress = True
        while work and progress:
            progress = False
            for l in list(work):
                nm, e0, _ = work[l]
                r = cur[l]
                deps = {x for x in r.fv() if x in names and names[x] in work}
                if "*" in r.fv():
                    continue
                if not deps:
                    closed[l] = (lambda e0, r: lambda k: ite_lazy(
                        t_eq(lift(k), ZERO), lambda: e0, lambda: r.subst(v, lift(k) - ONE)))(e0, r)
                elif deps == {nm}:
                    d = r - var0(nm)
                    if nm in d.fv():
                        continue
                    closed[l] = (lambda e0, d: lambda k: e0 + t_sum(k, lambda j: d.subst(v, lift(j))))(e0, d)
                else:
                    continue
                del work[l]
                progress = True
                c = closed[l](iv)
                for l2 in work:
                    cur[l2] = cur[l2].subst(nm, c)
        if work:
            ls = list(work)
            if any(has_top(cur[l]) for l in ls):
                bad = True
                for l in ls:
                    closed[l] = lambda k: top("unsolved recurrence")
                return
            rec = tm.Rec([work[l][0] for l in ls], [work[l][1] for l in ls], [cur[l] for l in ls], v)
            for j, l in enumerate(ls):
                closed[l] = (lambda j: lambda k: rec.at(j, k))(j)

    def loop_result(self, loc, e0, x, carry, v, n, st2):
        def bind_w(w):
            return W(((v, n),) + w.binders, w.cond, w.region, self.freeze(w.val))
        if loc[0] == "list":
            if isinstance(x, WList) and x.base is carry:
                if isinstance(carry, CarryList):
                    x = join_sub(x, carry)
                eb, ew = (e0.base, e0.writes) if isinstance(e0, WList) else (e0, ())
                ws = []
                for w in x.writes:
                    sv = settle_sub(resolve(w.val), e0, v, n)
                    if sv is not None and not sv[1] and not w.binders and v not in w.region[0][0].fv():
                        ws.append(W(w.binders, w.cond, w.region, sv[0]))
                        continue
                    val = sv[0] if sv is not None else w.val
                    ws.append(W(((v, n),) + w.binders, w.cond, w.region,
                                self.freeze_func(self.freeze(val), self_cells(e0))))
                return WList(eb, tuple(ew) + tuple(ws))
            if isinstance(x, ListVal) and not isinstance(x, (WList, CarryList)):
                p = x.parts
                if p and isinstance(p[0], Splice) and p[0].lst is carry:
                    tail = self.freeze_list(ListVal(p[1:])).parts
                    return ListVal(tuple(e0.parts) + (Comp(v, n, tail),))
                if p and isinstance(p[-1], Splice) and p[-1].lst is carry:
                    head = self.freeze_list(ListVal(p[:-1])).parts
                    head = tuple(part_subst(q, v, n - ONE - var0(v)) for q in head)
                    return ListVal((Comp(v, n, head),) + tuple(e0.parts))
            if x is carry:
                return e0
            return self.topify(loc, e0)
        if loc[0] == "dict":
            if isinstance(x, DictVal) and x.ext is carry.ext and not x.removed:
                ws = [(((v, n),) + tuple(w[0]), w[1], self.freeze(w[2]), self.freeze(w[3])) for w in x.writes]
                return DictVal(tuple(e0.writes) + tuple(ws), e0.ext, e0.removed)
            return self.topify(loc, e0)
        if carry is not None and isinstance(carry, Arr) and carry.carry is not None:
            if x is carry:
                return e0
            if isinstance(x, WArr) and x.base is carry:
                eb, ew = (e0.base, e0.writes) if isinstance(e0, WArr) else (e0, ())
                return WArr(eb, tuple(ew) + tuple(bind_w(w) for w in x.writes))
            if isinstance(x, Arr) and x.blocks and isinstance(x.blocks[0], Item) and \
                    resolve(x.blocks[0].v) is carry:
                block, axis = x.blockinfo
                try:
                    return ar.stack_parts((Item(e0), Comp(v, n, x.blocks[1:])), block, axis, x.kind, x.ndim)
                except Unsupported:
                    return TopV("stack")
            if isinstance(x, Arr) and x.blocks and isinstance(x.blocks[-1], Item) and \
                    resolve(x.blocks[-1].v) is carry:
                block, axis = x.blockinfo
                back = tuple(part_subst(q, v, n - ONE - iv0) for iv0 in [var0(v)] for q in x.blocks[:-1])
                try:
                    return ar.stack_parts((Comp(v, n, back), Item(e0)), block, axis, x.kind, x.ndim)
                except Unsupported:
                    return TopV("stack")
        last = vsubst(x, v, n - ONE)
        c = t_le(ONE, n)
        if e0 is UNDEF or decide(c) is True:
            return last
        return gate(c, last, e0)

    # ------------------------------------------------------------ assignment
    def setvar(self, name, v):
        f = self.frames[-1]
        fr = self.get(f)
        if name in fr.vars.get("$nonlocal", ()):
            p = fr.parent
            while p is not None:
                pf = self.get(p)
                if name in pf.vars:
                    self.put(p, pf.set(name, v))
                    return
                p = pf.parent
        # comprehension scopes write their own frame
        self.put(f, fr.set(name, v))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v)
        elif isinstance(t, ast.Attribute):
            b = resolve(self.eval(t.value))
            self.set_attr(b, self.attr_name(t.attr), v, t)
        elif isinstance(t, ast.Subscript):
            self.set_item(t, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Unsupported("assign")

    def set_attr(self, b, name, v, node):
        if isinstance(b, Gated):
            tm.FACTS.append((b.c, True))
            st0 = self.st
            self.st = dict(st0)
            self.set_attr(resolve(b.a), name, v, node)
            s1 = self.st
            tm.FACTS.pop()
            self.st = dict(st0)
            self.set_attr(resolve(b.b), name, v, node)
            self.st = self.merge(b.c, s1, self.st)
            return
        if isinstance(b, Ref) and isinstance(self.get(b), ObjC):
            o = self.get(b)
            if o.ext:
                self.event("extwrite", node, obj=o.ext, attr=name)
            self.put(b, o.set(name, v))
            return
        if isinstance(b, ClassVal) and b.name in self.classcell:
            r = self.classcell[b.name]
            self.put(r, self.get(r).set(name, v))
            return
        if isinstance(b, Model):
            b.setattr(self, name, v)
            return
        self.note(node, "attribute write on %r" % (b,))

    def unpack(self, t, v):
        v = resolve(v)
        n = len(t.elts)
        star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        if star:
            lst = self.as_list(v)
            k = star[0]
            L = lst.length()
            for j in range(k):
                self.assign(t.elts[j], lst.get(lift(j)))
            m = n - k - 1
            self.assign(t.elts[k], self.new(self.slice_list(lst, lift(k), L - lift(m))))
            for j in range(m):
                self.assign(t.elts[k + 1 + j], lst.get(L - lift(m - j)))
            return
        if isinstance(v, Gated):
            vals = []
            for k in range(n):
                vals.append(distribute(v, lambda x: self.nth(x, k, n)))
            for e, x in zip(t.elts, vals):
                self.assign(e, x)
            return
        for k, e in enumerate(t.elts):
            self.assign(e, self.nth(v, k, n))

    def nth(self, v, k, n):
        v = resolve(v)
        if isinstance(v, tuple):
            if len(v) != n:
                self.note(None, "unpack arity")
                return TopV("arity")
            return v[k]
        if isinstance(v, Ref) and isinstance(self.get(v), ListVal):
            return self.list_get(v, lift(k))
        if isinstance(v, ListVal):
            return v.get(lift(k))
        if isinstance(v, Arr):
            return ar.getitem(v, (lift(k),))
        if isinstance(v, (Enum, Zip)):
            it = self.iter_spec(v)
            if it[0] == "items":
                return it[1][k]
        return TopV("unpack %r" % (v,))

    def set_item(self, t, v):
        idx = self.eval_index(t.slice)
        base = resolve(self.eval(t.value))
        self.set_item_on(base, idx, v, t)

    def set_item_on(self, base, idx, v, t):
        if isinstance(base, Gated):
            st0 = self.st
            tm.FACTS.append((base.c, True))
            self.st = dict(st0)
            self.set_item_on(resolve(base.a), idx, v, t)
            s1 = self.st
            tm.FACTS.pop()
            tm.FACTS.append((base.c, False))
            self.st = dict(st0)
            self.set_item_on(resolve(base.b), idx, v, t)
            tm.FACTS.pop()
            self.st = self.merge(base.c, s1, self.st)
            return
        if isinstance(base, Ref):
            c = self.get(base)
            if isinstance(c, ListVal):
                self.put(base, self.list_set(c, idx, v))
                return
            if isinstance(c, DictVal):
                key = idx[0] if len(idx) == 1 else tuple(idx)
                self.put(base, self.dict_set(c, key, v))
                return
            if isinstance(c, ObjC):
                self.note(t, "setitem on object")
                return
        if isinstance(base, Model):
            base.setitem(self, idx, v)
            return
        if isinstance(base, Arr):
            try:
                r = ar.setitem(base, idx, self.num_value(v))
            except Unsupported as e:
                self.note(t, e)
                r = Arr(base.kind, base.shape, lambda *i: top("unsupported write"))
            self.assign(t.value, r)
            return
        # list held by value: rebuild the parent
        sub = self.eval_lvalue(t.value)
        if isinstance(sub, SubRef):
            if isinstance(sub.val, ListVal):
                new = self.list_set(sub.val, idx, v)
            elif isinstance(sub.val, DictVal):
                new = self.dict_set(sub.val, idx[0], v)
            elif isinstance(sub.val, Arr):
                new = ar.setitem(sub.val, idx, self.num_value(v))
            else:
                raise Unsupported("nested write")
            self.write_sub(sub, new)
            return
        if isinstance(base, ListVal):
            self.assign(t.value, self.list_set(base, idx, v))
            return
        if isinstance(base, TopV):
            self.note(t, "write to unknown container")
            return
        raise Unsupported("setitem on %r" % (base,))

    def num_value(self, v):
        v = resolve(v)
        if isinstance(v, Ref):
            v = self.freeze(v)
        if isinstance(v, Gated):
            if any(isinstance(x, (Arr, ListVal, tuple, LazyV)) for x in ar.alternatives(v)):
                return v
            return ar.to_scalar(v)
        return v

    def write_sub(self, sub, new):
        p = sub.parent
        if isinstance(p, Ref):
            self.put(p, self.list_set(self.get(p), (sub.idx,), new))
        elif isinstance(p, SubRef):
            self.write_sub(p, self.list_set(p.val, (sub.idx,), new))

    def eval_lvalue(self, e):
        """evaluate keeping SubRefs"""
        if isinstance(e, ast.Subscript):
            b = self.eval_lvalue(e.value)
            idx = self.eval_index(e.slice)
            b0 = b
            if isinstance(b, Gated):
                b0 = resolve(b)
            if isinstance(b0, (Ref, SubRef)) and len(idx) == 1 and not isinstance(idx[0], Slice):
                c = self.get(b0) if isinstance(b0, Ref) else b0.val
                if isinstance(c, ListVal) and isinstance(idx[0], T):
                    i = self.norm_idx(c, idx[0])
                    x = c.get(i)
                    rx = x if isinstance(x, SubRef) else resolve(x)
                    if isinstance(rx, Ref):
                        return rx
                    return SubRef(b0, i, rx)
        return self.eval_raw(e)

    def norm_idx(self, c, i):
        if i.is_const() and i.const() < 0:
            return c.length() + i
        return i

    def list_set(self, c, idx, v):
        if len(idx) != 1:
            raise Unsupported("list index")
        i = idx[0]
        if isinstance(i, Arr):
            s = ar.scalar_of(i)
            i = s if s is not None else i
        if isinstance(i, Slice):
            raise Unsupported("list slice assignment")
        if isinstance(i, Gated):
            i = ar.to_scalar(i)
        if not isinstance(i, T):
            raise Unsupported("list index %r" % (i,))
        i = self.norm_idx(c, i)
        if not isinstance(c, (WList, CarryList)) and i.is_const():
            its = [p for p in c.parts]
            k = int(i.const())
            if all(isinstance(p, Item) for p in its) and 0 <= k < len(its):
                its[k] = Item(v)
                return ListVal(its)
            if len(its) == 1 and isinstance(its[0], Comp) and its[0].n.is_const():
                fl = flat_items(its)
                if fl is not None and 0 <= k < len(fl):
                    fl[k] = v
                    return ListVal([Item(x) for x in fl])
        w = W((), TRUE, [(i, None)], self.freeze(v) if False else v)
        base, ws = (c.base, c.writes) if isinstance(c, WList) else (c, ())
        # overwrite of the very same index
        if ws and not ws[-1].binders and ws[-1].cond == TRUE and ws[-1].region[0][0] == i:
            ws = ws[:-1]
        return WList(base, tuple(ws) + (w,))

    def list_get(self, ref, i):
        c = self.get(ref)
        x = c.get(self.norm_idx(c, i))
        if isinstance(resolve(x), (ListVal, DictVal)):
            return SubRef(ref, i, resolve(x))
        return x

    def list_extend(self, ref, v):
        c = self.get(ref)
        l = self.as_list(v)
        if isinstance(c, WList):
            pass
        self.put(ref, ListVal(tuple(c.parts) + tuple(l.parts)))

    def list_append(self, ref, v):
        c = self.get(ref)
        self.put(ref, ListVal(tuple(c.parts) + (Item(v),)))

    def dict_set(self, c, key, v):
        ws = list(c.writes)
        if isinstance(key, str):
            ws = [w for w in ws if not (w[2] == key and not w[0] and isinstance(w[2], str))] \
                if all(isinstance(w[2], str) or True for w in ws) else ws
        d = DictVal(tuple(ws) + (((), TRUE, key, v),), c.ext,
                    tuple(k for k in c.removed if k != key))
        return d

    def dict_remove(self, ref, key):
        c = self.get(ref)
        if isinstance(key, str):
            ws = [w for w in c.writes if w[2] != key]
            self.put(ref, DictVal(ws, c.ext, c.removed + (key,)))
        else:
            self.put(ref, DictVal((), "unknown", ()))

    def dict_get(self, c, key):
        """(present condition, value)"""
        if isinstance(key, Gated):
            pres = ite_lazy(key.c, lambda: self.dict_get(c, key.a)[0], lambda: self.dict_get(c, key.b)[0])
            return pres, gate_lazy(key.c, lambda: self.dict_get(c, key.a)[1],
                                   lambda: self.dict_get(c, key.b)[1])
        return self._dget(c, c.writes, key)

    def _dget(self, c, ws, key):
        if not ws:
            if isinstance(c.ext, CarryBase):
                if isinstance(key, str) and key in c.removed:
                    return FALSE, TopV("missing key")
                return c.ext.read(key)
            if c.ext == "unknown":
                return top("key"), TopV("unknown dict")
            if c.ext is not None and isinstance(key, str) and key not in c.removed:
                return sym("has_%s_%s" % (c.ext, key)), self.lib.ext_value(self, c.ext, key)
            if c.ext is not None and isinstance(key, StrT) and key.parts[0] == "extkey:" + c.ext:
                return TRUE, TopV("ext value")
            return FALSE, TopV("missing key")
        w = ws[-1]
        m, sub = self.key_match(w, key)
        if m is False:
            return self._dget(c, ws[:-1], key)
        val = w[3]
        for a, b in sub:
            val = vsubst(val, a, b)
        cond = w[1]
        for a, b in sub:
            cond = cond.subst(a, b)
        cond = t_and(cond, m)
        if decide(cond) is True:
            return TRUE, val
        p, x = self._dget(c, ws[:-1], key)
        return t_or_(cond, p), gate(cond, val, x)

    def key_match(self, w, key):
        """(condition or False, substitution)"""
        k = w[2]
        binders = w[0]
        if isinstance(k, str) or isinstance(key, str):
            if isinstance(k, str) and isinstance(key, str):
                return (TRUE if k == key else False), []
            if isinstance(k, tuple) or isinstance(key, tuple):
                return False, []
            if isinstance(k, StrT) or isinstance(key, StrT):
                return False, []
            return False, []
        if isinstance(k, StrT) and isinstance(key, StrT):
            if len(k.parts) != len(key.parts):
                return False, []
            sub, cond = [], TRUE
            for a, b in zip(k.parts, key.parts):
                if isinstance(a, str) or isinstance(b, str):
                    if a != b:
                        return False, []
                    continue
                names = [x for x, _ in binders]
                vs = [x for x in names if x in a.fv()]
                if len(vs) == 1 and (a - var0(vs[0])).m == {}:
                    sub.append((vs[0], b))
                else:
                    cond = t_and(cond, t_eq(a, b))
            return cond, sub
        if isinstance(k, tuple) or isinstance(key, tuple):
            if not (isinstance(k, tuple) and isinstance(key, tuple)) or len(k) != len(key):
                return False, []
            if not binders:
                c = TRUE
                for a, b in zip(k, key):
                    r, _ = self.key_match(((), TRUE, resolve(a), None), resolve(b))
                    if r is False:
                        return False, []
                    c = t_and(c, r)
                return c, []
            if k_of(k) is None or k_of(key) is None:
                return top("key"), []
            if tm.CUR is not None:
                r = search_key(k, key, binders, w[1])
                return (False, []) if r is None else (TRUE, r)
            return found_key(k, key, binders, w[1])
        if isinstance(k, T) and isinstance(key, T):
            names = [x for x, _ in binders]
            if not names:
                return t_eq(k, key), []
            if k == key and not any(x in k.fv() for x in names):
                return TRUE, []
            # unify g(v) with g(t): same symbol, argument v
            r = unify(k, key, names) if w[1] == TRUE or tm.CUR is None and decide(w[1]) is True else None
            if r is not None:
                return TRUE, r
            if tm.CUR is not None:
                r = search_key(k, key, binders, w[1])
                if r is None:
                    return False, []
                return TRUE, r
            return found_key(k, key, binders, w[1])
        if isinstance(k, Arr) and isinstance(key, T):
            s = ar.scalar_of(k)
        return False, []

    # ------------------------------------------------------------ expressions
    def eval(self, e):
        v = self.eval_raw(e)
        return v

    def eval_raw(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.note(e, "expression %s" % type(e).__name__)
            return TopV("expr")
        try:
            return m(e)
        except Unsupported as x:
            self.note(e, x)
            return TopV(str(x))

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, (int, float)):
            return lift(v)
        if isinstance(v, str) or v is None:
            return v
        if v is Ellipsis:
            return Ellipsis
        return TopV("const")

    def e_Name(self, e):
        return self.lookup(e.id, e)

    def lookup(self, name, node=None):
        f = self.frames[-1] if self.frames else None
        while f is not None:
            fr = self.get(f)
            if name in fr.vars:
                v = fr.vars[name]
                if isinstance(v, TopV) and getattr(v, "probe", False):
                    v.was_read = True
                if isinstance(v, Undef):
                    self.event("undef", node, name=name)
                    return TopV("unassigned %s" % name)
                return v
            if fr.frozen and name in fr.frozen:
                return fr.frozen[name]
            f = fr.parent
        return self.global_name(name, node)

    def global_name(self, name, node=None):
        if name in self.mod.classes:
            return ClassVal(name)
        if name in self.mod.functions:
            return Func(self.mod.functions[name], None, None, name,
                        *self.eval_defaults(self.mod.functions[name]))
        if name in self.mod.imports:
            full = self.mod.imports[name]
            return ModuleV(CANON.get(full, full))
        if name in self.mod.consts:
            if id(self.mod.consts[name]) in self.mutable:
                return self.mutable[id(self.mod.consts[name])]
            saved = self.frames
            self.frames = [self.new(FrameC({}, None, None, "<module>"))]
            try:
                return self.eval(self.mod.consts[name])
            finally:
                self.frames = saved
        if name in self.lib.BUILTINS:
            return Builtin(name)
        self.event("undefname", node, name=name)
        return TopV("name %s" % name)

    def eval_defaults(self, node):
        args = node.args
        one = lambda x: self.mutable[id(x)] if id(x) in self.mutable else self.eval(x)
        d = [one(x) for x in args.defaults] if self.frames else \
            self.in_module(lambda: [one(x) for x in args.defaults])
        kd = {}
        for a, x in zip(args.kwonlyargs, args.kw_defaults):
            if x is not None:
                kd[a.arg] = one(x) if self.frames else self.in_module(lambda: one(x))
        return tuple(d), kd

    def in_module(self, f):
        saved = self.frames
        self.frames = [self.new(FrameC({}, None, None, "<module>"))]
        try:
            return f()
        finally:
            self.frames = saved

    def make_func(self, node):
        fr = self.get(self.frames[-1])
        d, kd = self.eval_defaults(node)
        return Func(node, self.frames[-1], fr.cls, getattr(node, "name", "<lambda>"), d, kd)

    def e_Lambda(self, e):
        return self.make_func(e)

    def e_Tuple(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                l = self.as_list(self.eval(x.value))
                its = flat_items(l.parts)
                if its is None:
                    raise Unsupported("starred tuple")
                out += its
            else:
                out.append(self.eval(x))
        return tuple(out)

    def e_List(self, e):
        parts = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                parts += list(self.as_list(self.eval(x.value)).parts)
            else:
                parts.append(Item(self.eval(x)))
        return self.new(ListVal(parts))

    def e_Set(self, e):
        return SetV(ListVal([Item(self.eval(x)) for x in e.elts]))

    def e_Dict(self, e):
        d = DictVal()
        for k, v in zip(e.keys, e.values):
            if k is None:
                s = resolve(self.eval(v))
                c = self.get(s) if isinstance(s, Ref) else s
                if isinstance(c, DictVal):
                    d = DictVal(d.writes + c.writes, c.ext or d.ext, c.removed)
                else:
                    d = DictVal(d.writes, "unknown")
                continue
            d = self.dict_set(d, resolve(self.eval(k)), self.eval(v))
        return self.new(d)

    def e_IfExp(self, e):
        c = self.truthy(self.eval(e.test))
        k = decide(c)
        if k is True:
            return self.eval(e.body)
        if k is False:
            return self.eval(e.orelse)
        st0 = self.st
        tm.FACTS.append((c, True))
        n = self.push_facts(c, True)
        self.st = dict(st0)
        a = self.eval(e.body)
        s1 = self.st
        for _ in range(n + 1):
            tm.FACTS.pop()
        tm.FACTS.append((c, False))
        n = self.push_facts(c, False)
        self.st = dict(st0)
        b = self.eval(e.orelse)
        for _ in range(n + 1):
            tm.FACTS.pop()
        self.st = self.merge(c, s1, self.st)
        return gate(c, a, b)

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        v = self.eval(e.values[0])
        for x in e.values[1:]:
            c = self.truthy(v)
            k = decide(c)
            if k is not None:
                if k != isand:
                    return v
                v = self.eval(x)
                continue
            st0 = self.st
            tm.FACTS.append((c, isand))
            n = self.push_facts(c, isand)
            self.st = dict(st0)
            w = self.eval(x)
            for _ in range(n + 1):
                tm.FACTS.pop()
            self.st = self.merge(c, self.st if isand else st0, st0 if isand else self.st)
            if isinstance(v, T) and isinstance(w, T) and is_bool(v) and is_bool(w):
                v = t_and(v, w) if isand else t_or(v, w)
            elif isand:
                v = gate(c, w, v)
            else:
                v = gate(c, v, w)
        return v

    def e_UnaryOp(self, e):
        v = resolve(self.eval(e.operand))
        if isinstance(e.op, ast.Not):
            return t_not(self.truthy(v))
        if isinstance(e.op, ast.USub):
            return self.num1(lambda x: -x, v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return self.num1(lambda x: t_not(x), v)
        raise Unsupported("unary")

    def num1(self, f, v):
        return distribute(self.freeze(v), lambda x: ar.map1(f, ar.as_num(x)) if not isinstance(x, TopV)
                          else TopV("unary"))

    def e_BinOp(self, e):
        a, b = self.eval(e.left), self.eval(e.right)
        return self.binop(type(e.op).__name__, a, b, e)

    def binop(self, op, a, b, node):
        return distribute_n([a, b], lambda x, y: self.binop1(op, x, y, node))

    def binop1(self, op, a, b, node):
        if isinstance(a, TopV) or isinstance(b, TopV):
            return TopV("operand")
        if a is None or b is None or isinstance(a, Undef) or isinstance(b, Undef):
            self.event("noneuse", node, what="arithmetic with None")
            return TopV("operand None")
        la, lb = self.list_content(a), self.list_content(b)
        if op == "Add" and (la is not None and lb is not None):
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            return self.new(ListVal(tuple(la.parts) + tuple(lb.parts)))
        if op == "Mult" and la is not None and isinstance(b, (T, Arr)) and not isinstance(b, Arr):
            return self.list_repeat(la, b)
        if op == "Mult" and lb is not None and isinstance(a, T):
            return self.list_repeat(lb, a)
        if isinstance(a, str) or isinstance(b, str) or isinstance(a, StrT) or isinstance(b, StrT):
            if op == "Add":
                return str_join([a, b])
            if op == "Mod":
                return StrT(("fmt", a) + (b if isinstance(b, tuple) else (b,)))
            if op == "Mult" and isinstance(a, str) and isinstance(b, T) and b.is_const():
                return a * int(b.const())
            return TopV("string op")
        if op == "MatMult":
            x, y = ar.as_num(self.freeze(a)), ar.as_num(self.freeze(b))
            if isinstance(x, Arr) and isinstance(y, Arr) and (x.kind == "ca" or y.kind == "ca"):
                return ar.mtimes(x, y)
            return ar.np_dot(x, y)
        if op in ("BitAnd", "BitOr"):
            f = t_and if op == "BitAnd" else t_or
            r = ar.elementwise(f, ar.as_num(self.freeze(a)), ar.as_num(self.freeze(b)))
            if isinstance(r, Arr):
                r.isbool = True
            return r
        if op not in ar.ARITH:
            raise Unsupported("operator %s" % op)
        x, y = self.freeze(a), self.freeze(b)
        if isinstance(x, Model) or isinstance(y, Model):
            return self.lib.model_binop(self, op, x, y)
        if isinstance(x, ListVal) and not isinstance(y, Arr) or isinstance(y, ListVal) and not isinstance(x, Arr):
            raise Unsupported("list arithmetic")
        x, y = ar.as_num(x), ar.as_num(y)
        return ar.elementwise(ar.ARITH[op], x, y)

    def list_content(self, v):
        if isinstance(v, Ref):
            c = self.st.get(v.cell)
            return c if isinstance(c, ListVal) else None
        if isinstance(v, SubRef):
            return v.val if isinstance(v.val, ListVal) else None
        if isinstance(v, ListVal):
            return v
        if isinstance(v, tuple):
            return ListVal([Item(x) for x in v])
        return None

    def list_repeat(self, l, n):
        if n.is_const() and n.const() <= 6:
            return self.new(ListVal(tuple(l.parts) * int(n.const())))
        w = fresh("w")
        return self.new(ListVal([Comp(w, n, self.freeze_list(l).parts if not has_ref(l) else l.parts)]))

    def e_Compare(self, e):
        left = self.eval(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r)
            c = self.compare(type(op).__name__, left, right, e)
            if res is None:
                res = c
            elif isinstance(res, T) and isinstance(c, T):
                res = t_and(res, c)
            else:
                res = TopV("chained comparison")
            left = right
        return res

    def compare(self, op, a, b, node):
        a, b = resolve(a), resolve(b)
        if op in ("Is", "IsNot"):
            r = self.is_same(a, b)
            return t_not(r) if op == "IsNot" else r
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            return t_not(r) if op == "NotIn" else r
        return distribute_n([a, b], lambda x, y: self.compare1(op, x, y, node))

    def compare1(self, op, a, b, node):
        if isinstance(a, TopV) or isinstance(b, TopV):
            return top("comparison")
        if op in ("Eq", "NotEq"):
            if a is None or b is None:
                r = self.is_same(a, b)
                return t_not(r) if op == "NotEq" else r
            if isinstance(a, str) and isinstance(b, str):
                r = TRUE if a == b else FALSE
                return t_not(r) if op == "NotEq" else r
            if isinstance(a, ExtStr) or isinstance(b, ExtStr):
                x, y = (a, b) if isinstance(a, ExtStr) else (b, a)
                r = sym("is_%s_%s" % (x.name, y)) if isinstance(y, str) else \
                    (TRUE if isinstance(y, ExtStr) and y.name == x.name else top("string"))
                return t_not(r) if op == "NotEq" else r
            la, lb = self.list_content(a), self.list_content(b)
            if isinstance(a, Ref) and isinstance(self.get(a), DictVal) or \
                    isinstance(b, Ref) and isinstance(self.get(b), DictVal):
                r = self.dict_eq(a, b)
                return t_not(r) if op == "NotEq" else r
            if la is not None and lb is not None:
                r = self.list_eq(la, lb)
                return t_not(r) if op == "NotEq" else r
            if (la is None) != (lb is None) and not isinstance(a, Arr) and not isinstance(b, Arr):
                return TRUE if op == "NotEq" else FALSE
            if isinstance(a, str) or isinstance(b, str):
                if isinstance(a, (T, str)) and isinstance(b, (T, str)):
                    return TRUE if op == "NotEq" else FALSE
                return top("string comparison")
        f = {"Eq": t_eq, "NotEq": lambda x, y: t_not(t_eq(x, y)), "Lt": t_lt, "LtE": t_le,
             "Gt": lambda x, y: t_lt(y, x), "GtE": lambda x, y: t_le(y, x)}[op]
        if not isinstance(a, (T, Arr, ListVal, Ref, tuple, SubRef)) or \
                not isinstance(b, (T, Arr, ListVal, Ref, tuple, SubRef)):
            return top("comparison")
        r = ar.elementwise(f, ar.as_num(self.freeze(a)), ar.as_num(self.freeze(b)))
        if isinstance(r, Arr):
            s = ar.scalar_of(r)
            if s is not None and r.kind == "ca":
                return s
            r.isbool = True
        return r

    def list_eq(self, a, b):
        na, nb = a.length(), b.length()
        if na == ZERO and nb == ZERO:
            return TRUE
        if na == ZERO:
            return t_eq(nb, ZERO)
        if nb == ZERO:
            return t_eq(na, ZERO)
        ia, ib = flat_items(a.parts), flat_items(b.parts)
        if ia is not None and ib is not None:
            if len(ia) != len(ib):
                return FALSE
            r = TRUE
            for x, y in zip(ia, ib):
                c = self.compare("Eq", x, y, None)
                if not isinstance(c, T):
                    return top("list comparison")
                r = t_and(r, c)
            return r
        return top("list comparison")

    def dict_eq(self, a, b):
        ca = self.get(a) if isinstance(a, Ref) else a
        cb = self.get(b) if isinstance(b, Ref) else b
        if isinstance(ca, DictVal) and isinstance(cb, DictVal):
            for x, y in ((ca, cb), (cb, ca)):
                if not x.writes and x.ext is None:
                    if y.ext is None:
                        return FALSE if y.writes else TRUE
                    if y.writes:
                        return FALSE
                    return sym("empty_" + y.ext)
        return top("dict comparison")

    def is_same(self, a, b):
        a, b = resolve(a), resolve(b)
        if isinstance(a, Gated):
            return ite_lazy(a.c, lambda: self.is_same(a.a, b), lambda: self.is_same(a.b, b))
        if isinstance(b, Gated):
            return self.is_same(b, a)
        if isinstance(a, (TopV, LazyV)) or isinstance(b, (TopV, LazyV)):
            return top("identity")
        if isinstance(a, Maybe) and b is None:
            return t_not(a.present)
        if isinstance(b, Maybe) and a is None:
            return t_not(b.present)
        if a is None or b is None:
            return TRUE if a is None and b is None else FALSE
        if isinstance(a, T) and isinstance(b, T):
            return t_eq(a, b)
        return TRUE if same_value(a, b) else FALSE

    def contains(self, cont, x):
        cont = resolve(cont)
        if isinstance(cont, Gated):
            return ite_lazy(cont.c, lambda: self.contains(cont.a, x), lambda: self.contains(cont.b, x))
        if isinstance(cont, Ref):
            c = self.get(cont)
        else:
            c = cont
        if isinstance(c, DictVal):
            key = resolve(x)
            if isinstance(key, StrT) and key.parts and str(key.parts[0]).startswith("extkey:"):
                names = [w[2] for w in c.writes if isinstance(w[2], str)]
                return sym("extkey_in_%s" % "_".join(sorted(names)), key.parts[1])
            p, _ = self.dict_get(c, key)
            return p
        l = self.list_content(cont)
        if l is not None:
            its = flat_items(l.parts)
            if its is not None:
                r = FALSE
                for y in its:
                    c1 = self.compare("Eq", y, x, None)
                    if not isinstance(c1, T):
                        return top("in")
                    r = t_or(r, c1)
                return r
            return top("in")
        if isinstance(c, Model):
            return c.contains(self, x)
        if isinstance(c, str) and isinstance(x, str):
            return TRUE if x in c else FALSE
        return top("in")

    havoc = False

    def truthy(self, v):
        c = self.truthy_of(v)
        if self.havoc and has_top(c):
            # a condition the analysis does not know: either value, the same one whenever it is asked again
            k = v if isinstance(v, (T, TopV)) else c
            key = k if isinstance(k, T) else id(k)
            if key not in self.havocs:
                self.havocs[key] = (tm.t_eq(sym("havoc", lift(len(self.havocs))), lift(1)), v)
            return self.havocs[key][0]
        return c

    def truthy_of(self, v):
        v = resolve(v)
        if isinstance(v, T):
            if is_bool(v) or v.is_const():
                return v if is_bool(v) else (TRUE if v.const() else FALSE)
            return t_not(t_eq(v, ZERO))
        if v is None or isinstance(v, Undef):
            return FALSE
        if isinstance(v, (str, tuple)):
            return TRUE if len(v) else FALSE
        if isinstance(v, Gated):
            return ite_lazy(v.c, lambda: self.truthy_of(v.a), lambda: self.truthy_of(v.b))
        if isinstance(v, Ref):
            c = self.get(v)
            if isinstance(c, ListVal):
                return nonzero_len(c.length())
            if isinstance(c, DictVal):
                if c.writes:
                    r = FALSE
                    for w in c.writes:
                        r = t_or(r, w[1]) if not w[0] else top("dict")
                    return r
                return FALSE if c.ext is None else t_not(sym("empty_" + c.ext))
            return TRUE
        if isinstance(v, ListVal):
            return nonzero_len(v.length())
        if isinstance(v, Maybe):
            return v.truth()
        if isinstance(v, Arr):
            s = ar.scalar_of(v)
            if s is not None:
                return self.truthy_of(s)
            return top("array truth")
        if isinstance(v, (Func, Bound, Builtin, ClassVal, Callback, Model, CasFun, StrT)):
            return TRUE
        if isinstance(v, RangeV):
            return t_not(t_eq(v.n, ZERO))
        return top("truth of %r" % (v,))

    def e_JoinedStr(self, e):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                parts.append(self.eval(p.value))
        return str_join(parts)

    def e_FormattedValue(self, e):
        return str_join([self.eval(e.value)])

    def e_Starred(self, e):
        return Splat(self.eval(e.value))

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.setvar(e.target.id, v)
        return v

    def e_Slice(self, e):
        g = lambda x: None if x is None else self.index_value(self.eval(x))
        return Slice(g(e.lower), g(e.upper), g(e.step))

    def index_value(self, v):
        v = resolve(v)
        if isinstance(v, Arr):
            s = ar.scalar_of(v)
            if s is not None:
                return s
        if isinstance(v, Gated):
            return ar.to_scalar(v)
        return v

    def eval_index(self, s):
        if isinstance(s, ast.Tuple):
            return tuple(self.idx1(x) for x in s.elts)
        return (self.idx1(s),)

    def idx1(self, s):
        v = resolve(self.eval(s))
        if v is None:
            return ar.NEWAXIS
        if isinstance(v, Ref):
            f = self.freeze(v)
            return f
        return v

    def e_Subscript(self, e):
        b = self.eval_lvalue(e.value) if isinstance(e.value, ast.Subscript) else self.eval(e.value)
        idx = self.eval_index(e.slice)
        if isinstance(b, SubRef):
            if isinstance(b.val, ListVal) and len(idx) == 1 and isinstance(idx[0], T):
                i = self.norm_idx(b.val, idx[0])
                x = b.val.get(i)
                r = resolve(x)
                if isinstance(r, (ListVal, DictVal)):
                    return SubRef(b, i, r)
                return x
            b = b.val
        return distribute_n([b] + list(idx), lambda x, *i: self.subscript(x, i, e))

    def subscript(self, b, idx, node):
        if isinstance(b, TopV):
            return TopV("subscript")
        if isinstance(b, Ref):
            c = self.get(b)
            if isinstance(c, DictVal):
                key = idx[0] if len(idx) == 1 else tuple(idx)
                if isinstance(key, ListVal):
                    return TopV("key")
                p, v = self.dict_get(c, key)
                if decide(p) is False:
                    self.event("keyerror", node, key=key)
                return present(v)
            if isinstance(c, ListVal):
                return self.list_index(b, c, idx)
            return TopV("subscript of object")
        if isinstance(b, SubRef):
            b = b.val
        if isinstance(b, ListVal):
            return self.list_index(None, b, idx)
        if isinstance(b, DictVal):
            return self.dict_get(b, idx[0])[1]
        if isinstance(b, tuple):
            if len(idx) == 1 and isinstance(idx[0], T) and idx[0].is_const():
                k = int(idx[0].const())
                if -len(b) <= k < len(b):
                    return b[k]
                self.event("indexerror", node, n=lift(len(b)))
                return TopV("index")
            if len(idx) == 1 and isinstance(idx[0], Slice):
                lo, hi = idx[0].lo, idx[0].hi
                if (lo is None or lo.is_const()) and (hi is None or hi.is_const()):
                    return b[(None if lo is None else int(lo.const())):(None if hi is None else int(hi.const()))]
            return self.list_index(None, ListVal([Item(x) for x in b]), idx)
        if isinstance(b, (Arr, T)):
            return ar.getitem(b, tuple(idx))
        if isinstance(b, Model):
            return b.getitem(self, idx, node)
        if isinstance(b, RangeV) and len(idx) == 1 and isinstance(idx[0], T):
            i = idx[0]
            if i.is_const() and i.const() < 0:
                i = b.n + i
            return b.lo + b.step * i
        if isinstance(b, str) and len(idx) == 1 and isinstance(idx[0], T) and idx[0].is_const():
            return b[int(idx[0].const())]
        if b is None or isinstance(b, Undef):
            self.event("noneuse", node, what="subscript of None")
            return TopV("subscript of None")
        raise Unsupported("subscript of %r" % (b,))

    def list_index(self, ref, c, idx):
        if len(idx) != 1:
            raise Unsupported("list index")
        i = idx[0]
        if isinstance(i, Slice):
            if i.lo is None and i.hi is None and i.step is None:
                return self.new(c)
            if i.step is not None and not (i.step.is_const() and i.step.const() == 1):
                its = flat_items(c.parts)
                if its is not None:
                    g = lambda x: None if x is None else int(x.const())
                    return self.new(ListVal([Item(x) for x in its[slice(g(i.lo), g(i.hi), g(i.step))]]))
                if i.step.is_const() and i.step.const() == -1 and i.lo is None and i.hi is None:
                    n = c.length()
                    w = fresh("w")
                    rv = ListVal([Comp(w, n, (Item(RevElem(c, w, n)),))])
                    return self.new(rv)
                raise Unsupported("list step")
            n = c.length()
            lo = ar.norm_bound(i.lo, n, ZERO)
            hi = ar.norm_bound(i.hi, n, n)
            if i.hi is not None:
                hi = ar.clip_hi(hi, n)
            return self.new(self.slice_list(c, lo, hi))
        if isinstance(i, Arr):
            s = ar.scalar_of(i)
            if s is None:
                raise Unsupported("list index by array")
            i = s
        if not isinstance(i, T):
            raise Unsupported("list index %r" % (i,))
        k = self.norm_idx(c, i)
        x = c.get(k)
        r = resolve(x)
        if isinstance(r, (ListVal, DictVal)) and ref is not None:
            return SubRef(ref, k, r)
        return x

    def slice_list(self, c, lo, hi):
        its = flat_items(c.parts)
        if its is not None and lo.is_const() and hi.is_const():
            return ListVal([Item(x) for x in its[int(lo.const()):max(int(hi.const()), 0)]])
        if lo == ZERO and hi == c.length():
            return c
        parts = c.parts
        if lo.is_const() and hi == c.length():
            # drop leading items
            k = int(lo.const())
            ps = list(parts)
            while k > 0 and ps and isinstance(ps[0], Item):
                ps.pop(0)
                k -= 1
            if k == 0:
                return ListVal(ps)
        w = fresh("w")
        cc = self.freeze_list(c) if not has_ref(c) else c
        return ListVal([Comp(w, hi - lo, (Item(OffElem(cc, w, lo)),))])

    def as_list(self, v):
        v = resolve(v)
        if isinstance(v, Splat):
            v = resolve(v.v)
        l = self.list_content(v)
        if l is not None:
            return l
        if isinstance(v, Gated):
            return merge_list(v.c, self.as_list(v.a), self.as_list(v.b))
        if isinstance(v, Maybe):
            return v.as_list(self)
        if v is None or (isinstance(v, T) and not has_top(v)):
            self.event("typeerror", self.curnode, what="%s is not iterable" % ("None" if v is None else "a number"))
            return ListVal([Comp(fresh("w"), top("not iterable"), (Item(TopV("not iterable")),))])
        it = self.iter_spec(v)
        if it[0] == "items":
            return ListVal([Item(x) for x in it[1]])
        if it[0] == "sym":
            w = fresh("w")
            return ListVal([Comp(w, it[1], (Item(GetElem(it[2], w)),))])
        raise Unsupported("as_list %r" % (v,))

    # comprehension -----------------------------------------------------------
    def e_ListComp(self, e):
        return self.comp(e, e.elt)

    def e_GeneratorExp(self, e):
        return self.comp(e, e.elt)

    def e_SetComp(self, e):
        r = self.comp(e, e.elt)
        return SetV(self.get(r))

    def e_DictComp(self, e):
        target = self.new(DictVal())

        def add():
            k = resolve(self.eval(e.key))
            self.put(target, self.dict_set(self.get(target), k, self.freeze(self.eval(e.value))))
        self.comp_run(e.generators, add, e)
        return target

    def comp(self, e, elt):
        target = self.new(ListVal([]))

        def add():
            v = self.eval(elt)
            self.list_append(target, self.freeze(v))
        self.comp_run(e.generators, add, e)
        return target

    def comp_run(self, gens, add, e):
        fr = self.get(self.frames[-1])
        it0 = self.eval(gens[0].iter)
        f = self.new(FrameC({}, self.frames[-1], fr.cls, fr.fname))
        self.frames.append(f)
        try:
            self.comp_gen(gens, 0, add, e, it0)
        finally:
            self.frames.pop()

    def comp_gen(self, gens, k, add, e, it0=None):
        if k == len(gens):
            add()
            return Fall(self.st)
        g = gens[k]
        itv = it0 if k == 0 else self.eval(g.iter)

        def body():
            return self.comp_ifs(g.ifs, 0, gens, k, add, e)
        return self.for_over(self.iter_spec(itv), lambda v: self.assign(g.target, v), body, e)

    def comp_ifs(self, ifs, j, gens, k, add, e):
        if j == len(ifs):
            return self.comp_gen(gens, k + 1, add, e)
        c = self.truthy(self.eval(ifs[j]))
        d = decide(c)
        if d is True:
            return self.comp_ifs(ifs, j + 1, gens, k, add, e)
        if d is False:
            return Fall(self.st)
        st0 = self.st
        self.st = dict(st0)
        tm.FACTS.append((c, True))
        self.comp_ifs(ifs, j + 1, gens, k, add, e)
        tm.FACTS.pop()
        self.st = self.merge(c, self.st, st0)
        return Fall(self.st)

    # attributes ---------------------------------------------------------------
    def attr_name(self, a):
        fr = self.get(self.frames[-1]) if self.frames else None
        return mangle(fr.cls if fr else None, a)

    def e_Attribute(self, e):
        b = self.eval(e.value)
        return self.getattr(b, self.attr_name(e.attr), e)

    def getattr(self, b, name, node):
        return distribute(b, lambda x: self.getattr1(x, name, node))

    def getattr1(self, b, name, node):
        if isinstance(b, TopV):
            return TopV("attribute %s" % name)
        if isinstance(b, ModuleV):
            full = "%s.%s" % (b.name, name)
            if full in self.lib.CONSTS:
                return self.lib.CONSTS[full]
            return ModuleV(full)
        if isinstance(b, Ref):
            c = self.get(b)
            if isinstance(c, ObjC):
                if name in c.attrs:
                    v = c.attrs[name]
                    if isinstance(v, TopV) and getattr(v, "probe", False):
                        v.was_read = True
                    if isinstance(v, Undef):
                        self.event("undefattr", node, name=name, cls=c.cls)
                        return TopV("attribute %s" % name)
                    if isinstance(v, Gated):
                        if isinstance(resolve(v.a), Undef) or isinstance(resolve(v.b), Undef):
                            a = v.a if not isinstance(resolve(v.a), Undef) else v.b
                            return a
                    return v
                if name == "__class__":
                    return ClassVal(c.cls)
                if name == "__dict__":
                    return TopV("__dict__")
                v = self.class_attr(c.cls, name, b)
                if v is not UNDEF:
                    return v
                self.event("undefattr", node, name=name, cls=c.cls)
                return TopV("attribute %s" % name)
            return Builtin("%s.%s" % ("list" if isinstance(c, ListVal) else "dict", name), b)
        if isinstance(b, ClassVal):
            if name == "__name__":
                return b.name
            v = self.class_attr(b.name, name, None)
            return v if v is not UNDEF else TopV("class attribute %s" % name)
        if isinstance(b, SuperV):
            mro = self.mod.mro(b.objcls)
            k = mro.index(b.cls)
            for c in mro[k + 1:]:
                if name in self.mod.class_attrs[c]:
                    return self.wrap_class_attr(c, self.mod.class_attrs[c][name], b.obj, b.objcls)
            return TopV("super attribute")
        if isinstance(b, (ListVal, tuple)):
            return Builtin("list.%s" % name, b)
        if isinstance(b, SubRef):
            return Builtin("list.%s" % name, b) if isinstance(b.val, ListVal) else Builtin("dict.%s" % name, b)
        if isinstance(b, DictVal):
            return Builtin("dict.%s" % name, b)
        if isinstance(b, (Arr, T)):
            r = self.lib.arr_attr(self, b, name)
            if r is not None:
                return r
            return Builtin("arr.%s" % name, b)
        if isinstance(b, (str, StrT)):
            return Builtin("str.%s" % name, b)
        if isinstance(b, Model):
            return b.getattr(self, name, node)
        if isinstance(b, Func) and name == "__name__":
            return b.name
        if isinstance(b, Bound) and name == "__func__":
            return b.func
        if isinstance(b, SetV):
            return Builtin("set.%s" % name, b)
        if b is None or isinstance(b, Undef):
            self.event("noneuse", node, what="attribute %s of None" % name)
            return TopV("attribute of None")
        raise Unsupported("attribute %s of %r" % (name, b))

    def class_attr(self, cls, name, obj):
        ov = self.lib.class_override(self, cls, name)
        if ov is not None:
            return ov
        for k in self.mod.mro(cls):
            v = self.get(self.classcell[k]).attrs.get(name, UNDEF) if k in self.classcell else UNDEF
            if name in self.mod.class_attrs[k]:
                node = self.mod.class_attrs[k][name]
                if v is UNDEF:
                    return self.wrap_class_attr(k, node, obj, cls)
                if isinstance(v, Gated) and (isinstance(resolve(v.a), Undef) or isinstance(resolve(v.b), Undef)):
                    w = self.wrap_class_attr(k, node, obj, cls)
                    return gate(v.c, w if isinstance(resolve(v.a), Undef) else v.a,
                                w if isinstance(resolve(v.b), Undef) else v.b)
            if v is not UNDEF:
                if isinstance(v, Gated) and (isinstance(resolve(v.a), Undef) or isinstance(resolve(v.b), Undef)):
                    return v.a if not isinstance(resolve(v.a), Undef) else v.b
                return v
        return UNDEF

    def wrap_class_attr(self, c, node, obj, objcls):
        if isinstance(node, ast.FunctionDef):
            decs = [d.id for d in node.decorator_list if isinstance(d, ast.Name)]
            saved = self.frames
            self.frames = [self.new(FrameC({}, None, c, "<class>"))]
            try:
                d, kd = self.eval_defaults(node)
            finally:
                self.frames = saved
            f = Func(node, None, c, node.name, d, kd)
            if "staticmethod" in decs:
                return f
            if "classmethod" in decs:
                return Bound(f, ClassVal(objcls))
            if "property" in decs and obj is not None:
                return self.call(Bound(f, obj), [], {}, node)
            if obj is None:
                return f
            return Bound(f, obj)
        if (c, id(node)) in self.classvals:
            return self.classvals[(c, id(node))]
        if id(node) in self.mutable:
            return self.mutable[id(node)]
        saved = self.frames
        self.frames = [self.new(FrameC({}, None, c, "<class>"))]
        try:
            v = self.eval(node)
        finally:
            self.frames = saved
        if isinstance(v, (Arr, T, str, int, float)):
            self.classvals[(c, id(node))] = v
        return v

    # calls -------------------------------------------------------------------
    def e_Call(self, e):
        f = self.eval(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                args.append(Splat(v))
            else:
                args.append(self.eval(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                v = resolve(self.eval(k.value))
                kw.setdefault("**", []).append(v)
            else:
                kw[k.arg] = self.eval(k.value)
        self.sites.add((getattr(e, "lineno", 0), getattr(e, "col_offset", 0)))
        return self.call(f, args, kw, e)

    def call(self, f, args, kw, node):
        f = resolve(f)
        if isinstance(f, Gated):
            st0 = self.st
            tm.FACTS.append((f.c, True))
            self.st = dict(st0)
            a = self.call(f.a, args, kw, node)
            s1 = self.st
            tm.FACTS.pop()
            tm.FACTS.append((f.c, False))
            self.st = dict(st0)
            b = self.call(f.b, args, kw, node)
            tm.FACTS.pop()
            self.st = self.merge(f.c, s1, self.st)
            return gate(f.c, a, b)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + args, kw, node)
        if isinstance(f, Func):
            return self.call_func(f, args, kw, node)
        if isinstance(f, ClassVal):
            return self.instantiate(f.name, args, kw, node)
        if isinstance(f, (Builtin, ModuleV)):
            return self.lib.call(self, f, args, kw, node)
        if isinstance(f, Callback):
            return self.lib.call_user(self, f, args, kw, node)
        if isinstance(f, CasFun):
            return self.lib.call_casfun(self, f, args, kw, node)
        if isinstance(f, Model):
            return f.call(self, args, kw, node)
        if isinstance(f, TopV):
            return TopV("call of unknown")
        if isinstance(f, T) and self.lib.cfg.poly_call is not None:
            return self.lib.cfg.poly_call(self, f, args, kw, node)
        raise Unsupported("call of %r" % (f,))

    def instantiate(self, cls, args, kw, node):
        if cls in self.models:
            return self.models[cls](self, args, kw, node)
        obj = self.new(ObjC(cls, {}))
        c, init = self.mod.find(cls, "__init__")
        if init is not None:
            self.call(self.wrap_class_attr(c, init, obj, cls), args, kw, node)
        return obj

    def flat_args(self, args):
        out = []
        for a in args:
            if isinstance(a, Splat):
                l = self.as_list(a.v)
                its = flat_items(l.parts)
                if its is None:
                    raise Unsupported("call with star argument of unknown length")
                out += its
            else:
                out.append(a)
        return out

    def bind_args(self, f, args, kw, node):
        a = f.node.args
        args = self.flat_args(args)
        vars = {}
        pos = [x.arg for x in getattr(a, "posonlyargs", [])] + [x.arg for x in a.args]
        for n, v in zip(pos, args):
            vars[n] = v
        if len(args) > len(pos):
            if a.vararg:
                vars[a.vararg.arg] = tuple(args[len(pos):])
            else:
                self.event("arity", node, fn=f.name, got=lift(len(args)))
                return None
        elif a.vararg:
            vars[a.vararg.arg] = ()
        extra = {}
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        kws = {k: v for k, v in kw.items() if k != "**"}
        for d in kw.get("**", []):
            d = resolve(d)
            c = self.get(d) if isinstance(d, Ref) else d
            if isinstance(c, DictVal) and c.ext is None and \
                    all(isinstance(w[2], str) and w[1] == TRUE for w in c.writes):
                for w in c.writes:
                    kws[w[2]] = w[3]
            elif isinstance(c, DictVal) and c.ext is not None:
                # unknown external options: parameters not given may be overridden
                for n in names:
                    if n not in vars and n not in kws and n != "self":
                        p, v = self.dict_get(c, n)
                        dv = self.default_of(f, n)
                        if dv is not UNDEF:
                            kws[n] = gate(p, v, dv)
            else:
                raise Unsupported("call with unknown ** argument")
        for k, v in kws.items():
            if k in names:
                if k in vars:
                    self.event("arity", node, fn=f.name, got=ZERO)
                vars[k] = v
            else:
                extra[k] = v
        if extra and not a.kwarg:
            self.event("arity", node, fn=f.name, got=ZERO)
            return None
        if a.kwarg:
            d = DictVal()
            for k, v in extra.items():
                d = self.dict_set(d, k, v)
            vars[a.kwarg.arg] = self.new(d)
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n not in vars:
                dv = self.default_of(f, n)
                if dv is UNDEF:
                    self.event("arity", node, fn=f.name, got=lift(len(args)))
                    return None
                vars[n] = dv
        return vars

    def default_of(self, f, n):
        a = f.node.args
        pos = [x.arg for x in getattr(a, "posonlyargs", [])] + [x.arg for x in a.args]
        if n in pos:
            k = pos.index(n) - (len(pos) - len(f.defaults))
            return f.defaults[k] if k >= 0 else UNDEF
        return f.kwdefaults.get(n, UNDEF)

    def call_func(self, f, args, kw, node):
        if len(self.frames) > self.MAXDEPTH:
            return TopV("recursion")
        sp = self.split_arg(args, kw)
        if sp is not None:
            c, mk = sp
            return self.split_call(c, lambda: self.call_func(f, *mk(0), node), lambda: self.call_func(f, *mk(1), node))
        hook = self.lib.func_hook(self, f, args, kw, node)
        if hook is not None:
            return hook[0]
        vars = self.bind_args(f, args, kw, node)
        if vars is None:
            return TopV("arity")
        self.called.add(("%s.%s" % (f.cls, f.name)) if f.cls else f.name)
        parent = f.frame
        frozen = f.frozen
        fr = self.new(FrameC(vars, None if frozen is not None else parent, f.cls, f.name, frozen))
        self.frames.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body)
            o = self.exec_block(f.node.body)
            return self.collapse(o)
        finally:
            self.frames.pop()

    def split_arg(self, args, kw):
        """an argument choosing between strings: (condition, arguments per side)"""
        for i, a in enumerate(args):
            if isinstance(a, Gated) and str_leaves(a):
                return a.c, (lambda s, i=i, a=a: (list(args[:i]) + [a.b if s else a.a] + list(args[i + 1:]), kw))
        for k, a in (kw or {}).items():
            if isinstance(a, Gated) and str_leaves(a):
                return a.c, (lambda s, k=k, a=a: (args, {**kw, k: a.b if s else a.a}))
        return None

    def split_call(self, c, fa, fb):
        k = decide(c)
        if k is True:
            return fa()
        if k is False:
            return fb()
        st0 = self.st
        outs = []
        for val, f in ((True, fa), (False, fb)):
            tm.FACTS.append((c, val))
            pushed = self.push_facts(c, val)
            self.st = dict(st0)
            try:
                outs.append((f(), self.st))
            finally:
                for _ in range(pushed + 1):
                    tm.FACTS.pop()
        (a, sa), (b, sb) = outs
        self.st = self.merge(c, sa, sb)
        return gate(c, a, b)

    def collapse(self, o):
        o = self.simplify_out(o)
        if isinstance(o, Ret):
            self.st = o.st
            return o.val
        if isinstance(o, OIf):
            a = self.collapse(o.a)
            sa = self.st
            b = self.collapse(o.b)
            self.st = self.merge(o.c, sa, self.st)
            return gate(o.c, a, b)
        self.st = o.st
        if isinstance(o, Raise):
            return TopV("raises")
        return None


def unassigned(like):
    """a value never assigned, in the shape of the value assigned later"""
    for x in ar.alternatives(like):
        if isinstance(x, T):
            return top("unassigned")
        if isinstance(x, Arr):
            return Arr(x.kind, x.shape, lambda *i: top("unassigned"))
        return UNDEF
    return UNDEF


def str_leaves(g):
    if isinstance(g, Gated):
        return str_leaves(g.a) and str_leaves(g.b)
    return g is None or isinstance(g, str)


def self_cells(e0):
    return {}


class Zip:
    def __init__(self, its):
        self.its = its


class Enum:
    def __init__(self, it, start=ZERO):
        self.it, self.start = it, start


class SetV:
    def __init__(self, lst):
        self.lst = lst


class SuperV:
    def __init__(self, cls, obj, objcls):
        self.cls, self.obj, self.objcls = cls, obj, objcls


class ExtStr:
    """string supplied by the caller"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "ExtStr(%s)" % self.name


class Maybe(Model):
    """value that may be None"""

    def __init__(self, present, val):
        self.present, self.val = present, val


class OffElem(Elem):
    def __init__(self, lst, v, lo):
        Elem.__init__(self, lst, v)
        self.lo = lo


class RevElem(Elem):
    def __init__(self, lst, v, n):
        Elem.__init__(self, lst, v)
        self.n = n


class GetElem(Elem):
    def __init__(self, getter, v):
        self.getter, self.v = getter, v
        self.subs = []


import sys
_vals = sys.modules[__package__ + ".values"]
_old_vsubst = _vals.vsubst


def _vsubst(x, v, t):
    if isinstance(x, OffElem):
        if v == x.v:
            return x.lst.get(t + x.lo)
        return OffElem(_vsubst(x.lst, v, t), x.v, x.lo.subst(v, t))
    if isinstance(x, RevElem):
        if v == x.v:
            return x.lst.get(x.n - ONE - t)
        return RevElem(_vsubst(x.lst, v, t), x.v, x.n.subst(v, t))
    if isinstance(x, GetElem):
        if v == x.v:
            r = x.getter(t)
            for a, b in x.subs:
                r = _vsubst(r, a, b)
            return r
        g = GetElem(x.getter, x.v)
        g.subs = x.subs + [(v, t)]
        return g
    if isinstance(x, SetV):
        return SetV(_vsubst(x.lst, v, t))
    if isinstance(x, Enum):
        return Enum(_vsubst(x.it, v, t), x.start)
    if isinstance(x, Zip):
        return Zip([_vsubst(i, v, t) for i in x.its])
    return _old_vsubst(x, v, t)


for _m in list(sys.modules.values()):
    if getattr(_m, "__name__", "").startswith(__package__ + ".") and getattr(_m, "vsubst", None) is _old_vsubst:
        _m.vsubst = _vsubst
vsubst = _vsubst


def has_ref(l):
    for p in l.parts if not isinstance(l, (WList, CarryList)) else ():
        if isinstance(p, Item) and isinstance(p.v, Ref):
            return True
    return False


def is_bool(t):
    if t.is_const():
        return t.const() in (0, 1)
    if len(t.m) == 1:
        (mono, k), = t.m.items()
        if k == 1 and len(mono) == 1 and mono[0][1] == 1:
            a = mono[0][0]
            if a.op in ("not", "and", "eq", "ge0"):
                return True
            if a.op == "ite":
                return is_bool(a.args[1]) and is_bool(a.args[2])
            if a.op == "sym":
                return a.args[0].startswith(("has_", "is_", "empty_", "flag_", "extkey_"))
            if a.op == "lazy":
                return isinstance(a.args[0], tuple) and len(a.args[0]) > 1 and a.args[0][1] in ("any", "all")
            if a.op == "top":
                return True
    return False


def nonzero_len(n):
    if n.is_const():
        return TRUE if n.const() else FALSE
    if tm.positive(n):
        return TRUE
    return t_lt(ZERO, n)


def str_join(parts):
    out = []
    for p in parts:
        p = resolve(p)
        if isinstance(p, StrT):
            for q in p.parts:
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                else:
                    out.append(q)
            continue
        if isinstance(p, T) and p.is_const():
            p = str(p.const())
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    out = [p for p in out if not (isinstance(p, str) and p == "")] or [""]
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return StrT(out)


def unify(pat, t, names):
    """substitution for binder names making the pattern equal to t: f(v) ~ f(x)"""
    if len(pat.m) == 1 and len(t.m) == 1:
        (mp, cp), = pat.m.items()
        (mt, ct), = t.m.items()
        if cp == ct and len(mp) == 1 and len(mt) == 1 and mp[0][1] == 1 and mt[0][1] == 1:
            a, b = mp[0][0], mt[0][0]
            if a.op == "sym" and b.op == "sym" and a.args[0] == b.args[0] and len(a.args) == len(b.args):
                sub = []
                for x, y in zip(a.args[1:], b.args[1:]):
                    vs = [n for n in names if n in x.fv()]
                    if len(vs) == 1 and (x - var0(vs[0])).m == {}:
                        sub.append((vs[0], y))
                    elif x == y:
                        continue
                    else:
                        return None
                return sub
            if a.op == "var" and a.args[0] in names:
                return [(a.args[0], t)]
    if len(names) == 1 and (pat - var0(names[0])).fv().isdisjoint(names):
        return [(names[0], t - (pat - var0(names[0])))]
    return None


def first_index(c, v, n):
    def go():
        k = int(ev(n))
        for j in range(k):
            with tm.bind(v, j):
                if bool(ev(c)):
                    return lift(j)
        return lift(k)
    return lazy(go)


def carry_names(c):
    """variables standing for the unknown content of a carried location"""
    if isinstance(c, T):
        return set(c.fv())
    if isinstance(c, Arr):
        x = ar.scalar_of(c)
        return set(x.fv()) if x is not None else set()
    return set()


def found_key(k, key, binders, cond):
    """delayed search: (found, substitution of the binders)"""
    def go():
        return search_key(k, key, binders, cond)
    def hit(pos):
        r = go()
        if r is None:
            raise tm.Undecided("missing key")
        return r[pos][1]
    ok = lazy(lambda: ONE if go() is not None else ZERO)
    return ok, [(v, lazy(lambda pos=pos: hit(pos))) for pos, (v, n) in enumerate(binders)]


def present(v):
    """the value of d[key], given that the key is there (otherwise no value results)"""
    if isinstance(v, Gated):
        if isinstance(v.b, TopV) and v.b.reason == "missing key":
            return v.a
        b = present(v.b)
        if b is not v.b:
            return gate(v.c, v.a, b)
    return v


class CarryBase:
    """content of a dict at the start of a loop iteration: what it held before the loop and the writes
    of the earlier iterations"""

    def __init__(self, it, loc, e0):
        self.it, self.loc, self.e0, self.reads, self.templates, self.bad = it, loc, e0, [], None, False

    def __radd__(self, o):
        raise Unsupported("carried dict")

    def known(self, writes, reads, v):
        self.templates, self.probe_reads, self.v = writes, list(reads), v

    def read(self, key):
        if self.bad:
            return top("carried dict"), TopV("carried dict")
        if self.templates is None:
            d = fresh("dp")
            self.reads.append((d, key))
            return var0(d), TopV("carried dict")
        it = self.it
        here = [w for w in self.templates if may_equal(w[2], key)]
        pe, ve = it.dict_get(self.e0, key)
        if not here:
            return pe, ve
        if any(w[0] for w in here) or any(k_of(w[2]) is None for w in here) or k_of(key) is None or \
                self.e0.ext is not None or any(k_of(k) is None for _, k in self.probe_reads):
            return top("carried dict"), TopV("carried dict")
        iv = var0(self.v)
        entry = {d: it.dict_get(self.e0, k)[0] for d, k in self.probe_reads}

        def sim():
            held = {}
            for j in range(int(ev(iv))):
                with tm.bind(self.v, j):
                    env = tm.CUR
                    for d, k in self.probe_reads:
                        env.bind[d] = 1 if k_of(k)() in held or bool(ev(entry[d])) else 0
                    try:
                        for q, w in enumerate(here):
                            if bool(ev(w[1])):
                                held[k_of(w[2])()] = (j, q)
                    finally:
                        for d, k in self.probe_reads:
                            env.bind.pop(d, None)
            return held.get(k_of(key)())
        pres = lazy(lambda: ONE if sim() is not None else ZERO)
        at = lazy(lambda: lift((sim() or (0, 0))[0]))
        which = lazy(lambda: lift((sim() or (0, 0))[1]))
        val = vsubst(here[-1][3], self.v, at)
        for q in range(len(here) - 2, -1, -1):
            val = gate(t_eq(which, lift(q)), vsubst(here[q][3], self.v, at), val)
        return t_or_(pres, pe), gate(pres, val, ve)


def k_of(k):
    """the key under a valuation, as something to compare; None: not known"""
    if isinstance(k, str):
        return lambda: k
    if isinstance(k, T):
        return lambda: round(float(ev(k)), 9)
    if isinstance(k, tuple):
        fs = [k_of(resolve(x)) for x in k]
        return None if any(f is None for f in fs) else lambda: tuple(f() for f in fs)
    if isinstance(k, StrT):
        return lambda: "".join(q if isinstance(q, str) else "%g" % float(ev(q)) for q in k.parts)
    return None


def may_equal(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    return isinstance(a, T) == isinstance(b, T) and isinstance(a, tuple) == isinstance(b, tuple)


def search_key(k, key, binders, cond=TRUE):
    """under a valuation: last binder values with equal key"""
    target = k_of(key)()

    def rec(bs, sub):
        if not bs:
            return list(sub) if k_of(k)() == target and bool(ev(cond)) else None
        v, n = bs[0]
        for j in range(int(ev(n)) - 1, -1, -1):
            with tm.bind(v, j):
                r = rec(bs[1:], sub + [(v, lift(j))])
                if r is not None:
                    return r
        return None
    return rec(list(binders), [])
