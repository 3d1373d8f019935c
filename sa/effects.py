"""Flow-sensitive points-to and effect analysis over the syntax tree.

Abstract objects: objects that exist before a public call (the receiver, the caller's
arguments, default argument objects, class level objects) with access paths, and
allocation sites.  Calls to code of the module are followed with the actual arguments.
The result of a public entry is the set of writes to objects that existed before it, and
what the receiver keeps of the caller's objects afterwards.
"""
import ast

MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault",
            "popitem", "add", "discard", "fill", "resize", "itemset", "put", "partition", "__setitem__",
            "__delitem__", "appendleft", "difference_update", "intersection_update", "__iadd__", "__imul__"}
STORING = {"append": "[]", "insert": "[]", "add": "[]", "appendleft": "[]"}
SHALLOW = {"list", "tuple", "dict", "set", "frozenset", "sorted", "reversed", "zip", "enumerate", "map", "filter",
           "iter", "copy.copy", "itertools.chain", "dict.fromkeys"}
ALIAS = {"np.asarray", "np.ravel", "np.reshape", "np.squeeze", "np.transpose", "np.atleast_1d", "np.atleast_2d",
         "np.asanyarray", "np.ascontiguousarray", "np.expand_dims", "np.flip", "np.swapaxes", "np.split",
         "np.array_split", "np.hsplit", "np.vsplit", "np.broadcast_to", "np.diagonal", "np.flipud", "np.fliplr"}
ALIAS_M = {"reshape", "ravel", "squeeze", "transpose", "view", "swapaxes", "diagonal", "__getitem__", "__iter__"}
FIRST_MUTATED = {"np.fill_diagonal", "np.put", "np.copyto", "np.place", "np.putmask", "np.add.at", "np.multiply.at",
                 "np.subtract.at", "random.shuffle", "np.random.shuffle", "np.put_along_axis", "heapq.heappush"}
IMMUTABLE = {"scalar", "func", "str"}
MAXPATH = 5


class Ext:
    """object that existed before the call"""
    __slots__ = ("root", "path", "h")

    def __init__(self, root, path=()):
        self.root, self.path = root, path
        self.h = hash((root, path))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Ext) and self.root == o.root and self.path == o.path

    def __repr__(self):
        return self.root + "".join(p if p.startswith("[") else "." + p for p in self.path)


class Alloc:
    __slots__ = ("site", "kind", "cls", "h")

    def __init__(self, site, kind, cls=None):
        self.site, self.kind, self.cls = site, kind, cls
        self.h = hash((site, kind, cls))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Alloc) and self.site == o.site and self.kind == o.kind and self.cls == o.cls

    def __repr__(self):
        return "new %s@%s" % (self.cls or self.kind, self.site[-1:])


class Fn:
    __slots__ = ("node", "cls", "name", "self_", "env", "static", "h")

    def __init__(self, node, cls, name, self_=None, env=None, static=False):
        self.node, self.cls, self.name, self.self_, self.env, self.static = node, cls, name, self_, env, static
        self.h = hash((id(node), self_))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Fn) and self.node is o.node and self.self_ == o.self_


class Name:
    """class of the module, library module or function, method of an unmodelled object"""
    __slots__ = ("kind", "name", "obj", "h")

    def __init__(self, kind, name, obj=None):
        self.kind, self.name, self.obj = kind, name, obj
        self.h = hash((kind, name, obj))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Name) and (self.kind, self.name, self.obj) == (o.kind, o.name, o.obj)

    def __repr__(self):
        return "%s %s" % (self.kind, self.name)


NONE = frozenset()


class State:
    __slots__ = ("env", "heap")

    def __init__(self, env=None, heap=None):
        self.env, self.heap = env if env is not None else {}, heap if heap is not None else {}

    def copy(self):
        return State(dict(self.env), dict(self.heap))

    def same(self, o):
        return self.env == o.env and self.heap == o.heap


class Tree:
    """classes and functions of the module"""

    def __init__(self, path):
        self.tree = ast.parse(open(path).read())
        self.classes, self.funcs, self.bases, self.classattrs, self.modules = {}, {}, {}, {}, {}
        self.globals = {}
        for n in self.tree.body:
            if isinstance(n, ast.ClassDef):
                self.bases[n.name] = [b.id for b in n.bases if isinstance(b, ast.Name)]
                self.classes[n.name] = {m.name: m for m in n.body if isinstance(m, ast.FunctionDef)}
                self.classattrs[n.name] = {}
                for m in n.body:
                    ts = m.targets if isinstance(m, ast.Assign) else [m.target] if isinstance(m, ast.AnnAssign) and \
                        m.value is not None else []
                    for t in ts:
                        if isinstance(t, ast.Name):
                            self.classattrs[n.name][t.id] = m.value
            elif isinstance(n, ast.FunctionDef):
                self.funcs[n.name] = n
            elif isinstance(n, ast.Import):
                for a in n.names:
                    nm = {"numpy": "np", "casadi": "ca", "matplotlib.pyplot": "plt"}.get(a.name, a.name)
                    self.modules[a.asname or a.name.split(".")[0]] = nm
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.modules[a.asname or a.name] = "%s.%s" % (n.module, a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.globals[t.id] = n.value
        self.types = {c: self.attr_types(c) for c in self.classes}
        self.stored = {c: {s.attr for x in self.mro(c) for m in self.classes[x].values() for s in ast.walk(m)
                           if isinstance(s, ast.Attribute) and isinstance(s.ctx, ast.Store)} for c in self.classes}

    def mro(self, c):
        out = [c]
        for b in self.bases.get(c, ()):
            for x in self.mro(b):
                if x not in out:
                    out.append(x)
        return [x for x in out if x in self.classes]

    def method(self, c, name, after=None):
        m = self.mro(c)
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else []
        for x in m:
            if name in self.classes[x]:
                return x, self.classes[x][name]
        return None

    def classattr(self, c, name):
        for x in self.mro(c):
            if name in self.classattrs[x]:
                return x, self.classattrs[x][name]
        return None

    def attr_types(self, c):
        """attribute -> kind, from the assignments in the class and its bases"""
        out = {}

        def put(n, k):
            if out.get(n, k) != k:
                k = "?" if {out[n], k} != {"scalar", "str"} else "scalar"
            out[n] = k
        for x in self.mro(c):
            for m in self.classes[x].values():
                ann = {a.arg: a.annotation for a in m.args.args + m.args.kwonlyargs}
                for s in ast.walk(m):
                    ts, v = [], None
                    if isinstance(s, ast.Assign):
                        ts, v = s.targets, s.value
                    elif isinstance(s, ast.AnnAssign) and s.value is not None:
                        ts, v = [s.target], s.value
                    for t in ts:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                            put(t.attr, self.kind_of(v, ann))
            for n, v in self.classattrs[x].items():
                put(n, self.kind_of(v, {}))
        return out

    def kind_of(self, e, ann):
        if isinstance(e, (ast.List, ast.ListComp)):
            return "list"
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return "dict"
        if isinstance(e, (ast.Set, ast.SetComp)):
            return "list"
        if isinstance(e, ast.Lambda):
            return "func"
        if isinstance(e, ast.Constant):
            return "str" if isinstance(e.value, str) else "scalar"
        if isinstance(e, (ast.Compare, ast.UnaryOp)):
            return "scalar"
        if isinstance(e, ast.BinOp):
            if isinstance(e.op, ast.Mult) and (isinstance(e.left, ast.List) or isinstance(e.right, ast.List)):
                return "list"
            a, b = self.kind_of(e.left, ann), self.kind_of(e.right, ann)
            if a == b == "scalar":
                return "scalar"
            return "?"
        if isinstance(e, ast.Call):
            d = dotted(e.func)
            if isinstance(e.func, ast.Name):
                if e.func.id in self.classes:
                    return "obj:" + e.func.id
                return {"dict": "dict", "list": "list", "sum": "scalar", "len": "scalar", "max": "scalar",
                        "min": "scalar", "int": "scalar", "float": "scalar", "bool": "scalar"}.get(e.func.id, "?")
            if d in ("copy.deepcopy", "copy.copy") and e.args:
                return self.kind_of(e.args[0], ann)
            if d and d.startswith("np."):
                if d in ("np.array",) and e.args and isinstance(e.args[0], (ast.List, ast.ListComp, ast.BinOp)):
                    return "array%d" % nested(e.args[0])
                return "array"
            return "?"
        if isinstance(e, ast.Name) and ann.get(e.id) is not None:
            return ann_kind(ann[e.id], self.classes)
        return "?"


def nested(e):
    if isinstance(e, ast.List):
        return 1 + (nested(e.elts[0]) if e.elts else 0)
    if isinstance(e, ast.ListComp):
        return 1 + nested(e.elt)
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
        return max(nested(e.left), nested(e.right))
    return 0


def ann_kind(a, classes=()):
    if a is None:
        return "?"
    s = a.value if isinstance(a, ast.Constant) and isinstance(a.value, str) else ast.unparse(a)
    s = s.replace("Optional[", "").strip()
    h = s.split("[")[0]
    if h in classes:
        return "obj:" + h
    if h in ("List", "list", "typing.List"):
        return "list:scalar" if s in ("List[int]", "list[int]", "List[float]") else "list"
    return {"Dict": "dict", "dict": "dict", "np.ndarray": "array", "int": "scalar", "float": "scalar", "str": "str",
            "bool": "scalar", "Callable": "func"}.get(h, "?")


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b + "." + e.attr if b else None
    return None


def mutable_default(e):
    return isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or \
        (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("dict", "list", "set")) or \
        (isinstance(e, ast.Call) and (dotted(e.func) or "").startswith("np.")) or \
        (isinstance(e, ast.BinOp) and (mutable_default(e.left) or mutable_default(e.right)))


class Analysis:
    """one public entry"""

    MAXDEPTH = 14

    def __init__(self, tree, cls, fn):
        self.t = tree
        self.cls, self.fn = cls, fn
        self.events = {}
        self.stack = []
        self.kinds = {}
        self.seen = set()
        self.steps = 0
        self.globalnames = set()
        self.memo = {}
        self.repeated = {}      # mutable objects placed more than once in one list -> line

    # ------------------------------------------------------------------ kinds
    def kind(self, o):
        if isinstance(o, Alloc):
            return "obj:" + o.cls if o.cls else o.kind
        if not isinstance(o, Ext):
            return "func"
        if o in self.kinds:
            return self.kinds[o]
        if not o.path:
            return "?"
        k = self.kind(Ext(o.root, o.path[:-1]))
        f = o.path[-1]
        if k.startswith("obj:"):
            return self.t.types.get(k[4:], {}).get(f, "?")
        if k == "array2":
            return "array1" if f.startswith("[") else k
        if k in ("array1", "list:scalar"):
            return "scalar" if f.startswith("[") else k
        if k in IMMUTABLE:
            return "scalar"
        return "?"

    # ------------------------------------------------------------------- heap
    def child(self, o, f):
        if f.startswith("[") and not self.kind(o) in ("dict",):
            f = "[]"
        if len(o.path) >= MAXPATH:
            return o
        return Ext(o.root, o.path + (f,))

    def read(self, st, o, f):
        h = st.heap
        if isinstance(o, Ext):
            if self.kind(o) in IMMUTABLE:
                return NONE
            k = (o, self.child(o, f).path[-1] if len(o.path) < MAXPATH else f)
            if k in h:
                return h[k]
            c = self.child(o, f)
            if self.kind(c) in IMMUTABLE:
                return NONE
            return frozenset([c])
        if isinstance(o, Alloc):
            r = set(h.get((o, f), ()))
            if f == "[]":
                for (a, g), v in h.items():
                    if a == o and g.startswith("[") and g != f:
                        r |= v
            elif f.startswith("["):
                r |= h.get((o, "[]"), NONE)
            r |= h.get((o, "*"), NONE)
            if (o, f) not in h or f == "[]":
                for c in h.get((o, "<copy>"), ()):
                    r |= self.read(st, c, f)
            return frozenset(r)
        return NONE

    def contents(self, st, o):
        """what an object's elements may be"""
        return self.read(st, o, "[]")

    def event(self, o, f, node, what):
        k = (o, f, what, getattr(node, "lineno", 0), self.stack[-1] if self.stack else "?")
        if k not in self.events:
            self.events[k] = list(self.stack)

    def write(self, st, o, f, vals, node, what="write", strong=True):
        if isinstance(o, Ext):
            if self.kind(o) in IMMUTABLE:
                return
            self.event(o, f, node, what)
            c = self.child(o, f)
            f = c.path[-1] if c.path else f
            k = (o, f)
            if strong and not f == "[]" and not f == "*":
                st.heap[k] = vals
            else:
                st.heap[k] = self.read(st, o, f) | vals
        elif isinstance(o, Alloc):
            k = (o, f)
            if strong and o.cls and f != "*" and not f.startswith("["):
                st.heap[k] = vals
            else:
                st.heap[k] = st.heap.get(k, NONE) | vals
        elif isinstance(o, Name) and o.kind == "class":
            self.event(Ext("class " + o.name), f, node, "class attribute")

    def join(self, a, b):
        env = {}
        for k in set(a.env) | set(b.env):
            env[k] = a.env.get(k, NONE) | b.env.get(k, NONE)
        heap = {}
        for k in set(a.heap) | set(b.heap):
            va, vb = a.heap.get(k), b.heap.get(k)
            if va is None or vb is None:
                other = vb if va is None else va
                o, f = k
                base = NONE
                if isinstance(o, Ext) and f not in ("*",):
                    base = frozenset([self.child(o, f)]) if self.kind(self.child(o, f)) not in IMMUTABLE else NONE
                heap[k] = other | base
            else:
                heap[k] = va | vb
        return State(env, heap)

    def site(self, node):
        return tuple(x[1] for x in self.stack[-6:]) + ((getattr(node, "lineno", 0), getattr(node, "col_offset", 0)),)

    def alloc(self, node, kind, cls=None):
        return Alloc(self.site(node), kind, cls)

    # ------------------------------------------------------------------ entry
    def run(self):
        fn, cls = self.fn, self.cls
        st = State()
        static = is_static(fn)
        names = [a.arg for a in fn.args.args + fn.args.kwonlyargs]
        for i, a in enumerate(fn.args.args + fn.args.kwonlyargs):
            if i == 0 and cls and not static:
                if is_class(fn):
                    st.env[a.arg] = frozenset([Name("class", cls)])
                elif fn.name == "__init__":
                    self.me = Alloc((("self",),), "obj", cls)
                    st.env[a.arg] = frozenset([self.me])
                else:
                    o = Ext("self")
                    self.kinds[o] = "obj:" + cls
                    self.me = o
                    st.env[a.arg] = frozenset([o])
                continue
            o = Ext("argument " + a.arg)
            k = ann_kind(a.annotation, self.t.classes)
            if k == "?" and a.arg in ("problem", "ocp"):
                k = "obj:OCP"
            if k == "?" and a.arg in ("solution", "initial_solution"):
                k = "dict"
            self.kinds[o] = k
            vals = {o} if k not in IMMUTABLE else set()
            d = default_of(fn, a.arg)
            if d is not None and mutable_default(d):
                vals.add(self.default_obj(cls, fn, a.arg, d))
            st.env[a.arg] = frozenset(vals)
        if fn.args.kwarg:
            st.env[fn.args.kwarg.arg] = frozenset([self.alloc(fn, "dict")])
        self.stack.append(((cls + "." if cls else "") + fn.name, fn.lineno))
        out = []
        st = self.block(fn.body, st, out)
        self.stack.pop()
        fin = None
        for s, v in out + ([(st, NONE)] if st is not None else []):
            fin = s if fin is None else self.join(fin, s)
        self.final = fin or State()
        return self

    def default_obj(self, cls, fn, arg, d):
        o = Ext("default of %s%s(%s)" % (cls + "." if cls else "", fn.name, arg))
        self.kinds[o] = self.t.kind_of(d, {})
        return o

    # ------------------------------------------------------------- statements
    def block(self, body, st, out):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st, out)
        return st

    def stmt(self, s, st, out):
        self.steps += 1
        if isinstance(s, ast.Expr):
            self.ev(s.value, st)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, st)
            for t in s.targets:
                self.assign(t, v, st, s)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, st), st, s)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value, st)
            t = s.target
            if isinstance(t, ast.Name):
                for o in st.env.get(t.id, ()):
                    k = self.kind(o)
                    if k.startswith(("list", "array", "dict")):
                        vals = frozenset()
                        for x in v:
                            if k.startswith("list"):
                                vals |= self.contents(st, x)
                        self.write(st, o, "[]", vals, s, "in-place operator", strong=False)
            elif isinstance(t, ast.Attribute):
                for b in self.ev(t.value, st):
                    for o in self.read(st, b, t.attr):
                        k = self.kind(o)
                        if k.startswith(("list", "array", "dict")):
                            vals = frozenset()
                            for x in v:
                                if k.startswith("list"):
                                    vals |= self.contents(st, x)
                            self.write(st, o, "[]", vals, s, "in-place operator", strong=False)
                    self.write(st, b, t.attr, self.read(st, b, t.attr), s)
            elif isinstance(t, ast.Subscript):
                self.ev(t.slice, st)
                for b in self.ev(t.value, st):
                    self.write(st, b, self.field(t.slice), NONE, s, strong=False)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    for b in self.ev(t.value, st):
                        self.write(st, b, self.field(t.slice), NONE, s, "delete", strong=False)
                elif isinstance(t, ast.Attribute):
                    for b in self.ev(t.value, st):
                        self.write(st, b, t.attr, NONE, s, "delete")
        elif isinstance(s, ast.Return):
            v = self.ev(s.value, st) if s.value is not None else NONE
            out.append((st, v))
            return None
        elif isinstance(s, ast.If):
            self.ev(s.test, st)
            yes, no = scalars_if(s.test)
            a, b = st.copy(), st
            for n in yes:
                a.env[n] = NONE
            for n in no:
                b.env[n] = NONE
            a = self.block(s.body, a, out)
            b = self.block(s.orelse, b, out)
            if a is None:
                return b
            return a if b is None else self.join(a, b)
        elif isinstance(s, (ast.For, ast.While)):
            return self.loop(s, st, out)
        elif isinstance(s, (ast.Break, ast.Continue)):
            if self.brk:
                self.brk[-1].append(st)
            return None
        elif isinstance(s, ast.FunctionDef):
            st.env[s.name] = frozenset([Fn(s, None, s.name, env=dict(st.env))])
        elif isinstance(s, ast.With):
            for i in s.items:
                v = self.ev(i.context_expr, st)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, st, s)
            return self.block(s.body, st, out)
        elif isinstance(s, ast.Try):
            a = self.block(s.body, st.copy(), out)
            states = [x for x in (a, st) if x is not None]
            res = a
            for h in s.handlers:
                b = st.copy()
                if a is not None:
                    b = self.join(a, b)
                r = self.block(h.body, b, out)
                res = r if res is None else (res if r is None else self.join(res, r))
            if s.orelse and res is not None:
                res = self.block(s.orelse, res, out)
            if s.finalbody and res is not None:
                res = self.block(s.finalbody, res, out)
            return res
        elif isinstance(s, ast.Raise):
            if s.exc is not None:
                self.ev(s.exc, st)
            return None
        elif isinstance(s, ast.Assert):
            self.ev(s.test, st)
        elif isinstance(s, ast.Global):
            for n in s.names:
                self.globalnames.add(n)
        return st

    brk = []

    def loop(self, s, st, out):
        if isinstance(s, ast.For):
            it = self.ev(s.iter, st)
            items = frozenset().union(*[self.contents(st, o) for o in it]) if it else NONE
            items |= self.ranges(s.iter, st)
        self.brk = self.brk + [[]]
        cur = st
        for _ in range(3):
            a = cur.copy()
            if isinstance(s, ast.For):
                self.assign(s.target, items, a, s, unpacked=True)
            else:
                self.ev(s.test, a)
            a = self.block(s.body, a, out)
            new = cur if a is None else self.join(cur, a)
            for b in self.brk[-1]:
                new = self.join(new, b)
            self.brk[-1].clear()
            if new.same(cur):
                break
            cur = new
        self.brk = self.brk[:-1]
        if s.orelse:
            return self.block(s.orelse, cur, out)
        return cur

    def ranges(self, e, st):
        return NONE

    def field(self, sl):
        if isinstance(sl, ast.Constant) and isinstance(sl.value, str):
            return "[%r]" % sl.value
        if isinstance(sl, ast.Constant) and isinstance(sl.value, int) and sl.value >= 0:
            return "[%d]" % sl.value
        return "[]"

    def assign(self, t, v, st, node, unpacked=False):
        if isinstance(t, ast.Name):
            if t.id in self.globalnames:
                self.event(Ext("module"), t.id, node, "global")
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for k, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, frozenset().union(*[self.contents(st, o) for o in v]) if v else NONE, st, node)
                    continue
                r = frozenset()
                for o in v:
                    r |= self.read(st, o, "[%d]" % k)
                self.assign(e, r, st, node)
        elif isinstance(t, ast.Attribute):
            bs = self.ev(t.value, st)
            for b in bs:
                self.write(st, b, t.attr, v, node, strong=len(bs) == 1)
        elif isinstance(t, ast.Subscript):
            self.ev(t.slice, st)
            bs = self.ev(t.value, st)
            for b in bs:
                # elements assigned into an array are copied
                vals = NONE if self.kind(b).startswith("array") or isinstance(t.slice, ast.Slice) else v
                self.write(st, b, self.field(t.slice), vals, node, strong=False)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.ev(c, st)
            return NONE
        return m(e, st)

    def e_Name(self, e, st):
        if e.id in st.env:
            return st.env[e.id]
        if e.id in self.t.classes:
            return frozenset([Name("class", e.id)])
        if e.id in self.t.funcs:
            return frozenset([Fn(self.t.funcs[e.id], None, e.id)])
        if e.id in self.t.modules:
            return frozenset([Name("lib", self.t.modules[e.id])])
        if e.id in self.t.globals:
            if mutable_default(self.t.globals[e.id]):
                o = Ext("module variable " + e.id)
                self.kinds[o] = self.t.kind_of(self.t.globals[e.id], {})
                return frozenset([o])
            return NONE
        return frozenset([Name("lib", e.id)])

    def e_Attribute(self, e, st):
        r = set()
        for b in self.ev(e.value, st):
            if isinstance(b, Name):
                if b.kind == "lib":
                    r.add(Name("lib", b.name + "." + e.attr))
                elif b.kind == "class":
                    m = self.t.method(b.name, e.attr)
                    if m:
                        c, n = m
                        r.add(Fn(n, c, e.attr, self_=b if is_class(n) else None, static=is_static(n)))
                    else:
                        ca = self.t.classattr(b.name, e.attr)
                        if ca and mutable_default(ca[1]):
                            r.add(self.class_obj(ca[0], e.attr, ca[1]))
                elif b.kind == "super":
                    m = self.t.method(b.obj[1], e.attr, after=b.name)
                    if m:
                        r.add(Fn(m[1], m[0], e.attr, self_=b.obj[0]))
                continue
            if isinstance(b, Fn):
                continue
            k = self.kind(b)
            if k.startswith("obj:"):
                c = k[4:]
                if e.attr == "__class__":
                    r.add(Name("class", c))
                    continue
                if e.attr == "__dict__":
                    r.add(b)
                    continue
                m = self.t.method(c, e.attr)
                if m:
                    cc, n = m
                    if is_static(n):
                        r.add(Fn(n, cc, e.attr, static=True))
                    elif is_class(n):
                        r.add(Fn(n, cc, e.attr, self_=Name("class", c)))
                    elif is_property(n):
                        r |= self.call_fn(Fn(n, cc, e.attr, self_=b), [], {}, st, e)
                    else:
                        r.add(Fn(n, cc, e.attr, self_=b))
                    continue
                ca = self.t.classattr(c, e.attr)
                if ca and e.attr not in self.t.stored[c] and (b, e.attr) not in st.heap:
                    if mutable_default(ca[1]):
                        r.add(self.class_obj(ca[0], e.attr, ca[1]))
                    continue
                r |= self.read(st, b, e.attr)
                continue
            if e.attr in ("T", "real", "imag", "flat", "data"):
                r.add(b)          # view
            elif e.attr in ("shape", "size", "ndim", "dtype"):
                continue
            else:
                # attribute or method of an object of unknown class
                r |= self.read(st, b, e.attr) if k == "?" and isinstance(b, Ext) else NONE
                r.add(Name("method", e.attr, b))
        return frozenset(r)

    def class_obj(self, c, name, v):
        o = Ext("class %s" % c, (name,))
        self.kinds[o] = self.t.kind_of(v, {})
        return o

    def e_Subscript(self, e, st):
        self.ev(e.slice, st)
        r = set()
        for b in self.ev(e.value, st):
            if isinstance(b, (Name, Fn)):
                continue
            k = self.kind(b)
            if isinstance(e.slice, ast.Slice):
                if k.startswith("array"):
                    r.add(b)
                else:
                    a = self.alloc(e, "list")
                    st.heap[(a, "[]")] = st.heap.get((a, "[]"), NONE) | self.contents(st, b)
                    r.add(a)
                continue
            if isinstance(e.slice, ast.Tuple) and any(isinstance(x, ast.Slice) for x in e.slice.elts):
                if k.startswith("array"):
                    r.add(b)
                continue
            if k == "array1" and isinstance(b, Ext):
                continue
            if k.startswith("array") and isinstance(b, Alloc):
                r.add(b)
                continue
            r |= self.read(st, b, self.field(e.slice))
        return frozenset(r)

    def e_List(self, e, st, kind="list"):
        a = self.alloc(e, kind)
        for k, x in enumerate(e.elts):
            if isinstance(x, ast.Starred):
                v = frozenset().union(*[self.contents(st, o) for o in self.ev(x.value, st)] or [NONE])
                f = "[]"
            else:
                v = self.ev(x, st)
                f = "[%d]" % k
            if any(isinstance(y, ast.Starred) for y in e.elts):
                f = "[]"
            if v:
                st.heap[(a, f)] = st.heap.get((a, f), NONE) | v
        return frozenset([a])

    def e_Tuple(self, e, st):
        return self.e_List(e, st, "tuple")

    def e_Set(self, e, st):
        return self.e_List(e, st, "list")

    def e_Dict(self, e, st):
        a = self.alloc(e, "dict")
        for k, x in zip(e.keys, e.values):
            v = self.ev(x, st)
            if k is None:
                for o in v:
                    self.copy_into(st, a, o)
                continue
            self.ev(k, st)
            f = self.field(k)
            if v:
                st.heap[(a, f)] = st.heap.get((a, f), NONE) | v
        return frozenset([a])

    def copy_into(self, st, a, o):
        """the elements of o become elements of a"""
        if isinstance(o, Ext):
            st.heap[(a, "<copy>")] = st.heap.get((a, "<copy>"), NONE) | {o}
            for (b, f), v in list(st.heap.items()):
                if b == o:
                    st.heap[(a, f)] = st.heap.get((a, f), NONE) | v
        elif isinstance(o, Alloc):
            for (b, f), v in list(st.heap.items()):
                if b == o:
                    st.heap[(a, f)] = st.heap.get((a, f), NONE) | v

    def comp(self, e, st, elts, kind):
        inner = State(dict(st.env), st.heap)
        for g in e.generators:
            it = self.ev(g.iter, inner)
            items = frozenset().union(*[self.contents(inner, o) for o in it]) if it else NONE
            self.assign(g.target, items, inner, e)
            for c in g.ifs:
                self.ev(c, inner)
        a = self.alloc(e, kind)
        v = NONE
        own = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        for x in elts:
            r = self.ev(x, inner)
            if isinstance(x, ast.Name) and x.id not in own:
                self.repeat(r, x)
            v |= r
        if v:
            st.heap[(a, "[]")] = st.heap.get((a, "[]"), NONE) | v
        return frozenset([a])

    def e_ListComp(self, e, st):
        return self.comp(e, st, [e.elt], "list")

    e_SetComp = e_ListComp
    e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, st):
        return self.comp(e, st, [e.key, e.value], "dict")

    def e_IfExp(self, e, st):
        self.ev(e.test, st)
        yes, no = scalars_if(e.test)
        r = NONE
        for names, x in ((yes, e.body), (no, e.orelse)):
            inner = State({k: (NONE if k in names else v) for k, v in st.env.items()}, st.heap)
            r |= self.ev(x, inner)
            st.heap = inner.heap
        return r

    def e_BoolOp(self, e, st):
        r = NONE
        for x in e.values:
            r |= self.ev(x, st)
        return r

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        st.env[e.target.id] = v
        return v

    def e_BinOp(self, e, st):
        a, b = self.ev(e.left, st), self.ev(e.right, st)
        lists = [o for o in a | b if self.kind(o).startswith(("list", "dict", "tuple"))]
        if lists and isinstance(e.op, (ast.Add, ast.Mult, ast.BitOr)):
            n = self.alloc(e, "list")
            for o in lists:
                v = self.contents(st, o)
                if isinstance(e.op, ast.Mult):
                    self.repeat(v, e)
                if v:
                    st.heap[(n, "[]")] = st.heap.get((n, "[]"), NONE) | v
            return frozenset([n])
        if a or b:
            return frozenset([self.alloc(e, "array")])
        return NONE

    def repeat(self, vals, e):
        for x in vals:
            if self.kind(x).startswith(("list", "dict", "array")):
                self.repeated.setdefault(x, e.lineno)

    def e_UnaryOp(self, e, st):
        self.ev(e.operand, st)
        return NONE

    def e_Compare(self, e, st):
        self.ev(e.left, st)
        for c in e.comparators:
            self.ev(c, st)
        return NONE

    def e_Lambda(self, e, st):
        return frozenset([Fn(e, None, "<lambda>", env=dict(st.env))])

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_Constant(self, e, st):
        return NONE

    def e_JoinedStr(self, e, st):
        return NONE

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st.env:
            me = None
            for f in reversed(self.frames):
                if f[1] is not None:
                    me = f
                    break
            if me:
                return frozenset([Name("super", me[0], (me[1], self.kind(me[1])[4:]))])
            return NONE
        fs = self.ev(e.func, st)
        args, star = [], []
        for a in e.args:
            v = self.ev(a, st)
            if isinstance(a, ast.Starred):
                star.append(v)
            else:
                args.append(v)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                kw.setdefault("**", set()).update(v)
            else:
                kw[k.arg] = v
        r = set()
        if not fs:
            return frozenset([self.alloc(e, "?")])
        for f in sorted(fs, key=repr):
            if isinstance(f, Fn):
                r |= self.call_fn(f, args, kw, st, e)
            elif isinstance(f, Name) and f.kind == "class":
                o = self.alloc(e, "obj", f.name)
                m = self.t.method(f.name, "__init__")
                if m:
                    self.call_fn(Fn(m[1], m[0], "__init__", self_=o), args, kw, st, e)
                r.add(o)
            elif isinstance(f, Name):
                r |= self.call_lib(f, args, kw, star, st, e)
            else:
                # calling an object of the caller (user functions, solver objects): a fresh result
                r.add(self.alloc(e, "?"))
        return frozenset(r)

    frames = []

    def call_fn(self, f, args, kw, st, node):
        n = f.node
        a = n.args
        key = (id(n), f.self_, tuple(args), tuple(sorted((k, frozenset(v)) for k, v in kw.items())))
        if len(self.stack) > self.MAXDEPTH or key in self.active:
            return frozenset()
        mk = None
        if f.env is None and not isinstance(n, ast.Lambda):
            mk = (key, id(node), tuple(x[1] for x in self.stack[-6:]), frozenset(st.heap.items()))
            if mk in self.memo:
                r, st.heap = self.memo[mk][0], dict(self.memo[mk][1])
                return r
        pos = list(a.args)
        vals = {}
        if f.self_ is not None and pos:
            vals[pos[0].arg] = frozenset([f.self_])
            pos = pos[1:]
        for p, v in zip(pos, args):
            vals[p.arg] = v
        if a.vararg:
            t = self.alloc(node, "tuple")
            for v in args[len(pos):]:
                st.heap[(t, "[]")] = st.heap.get((t, "[]"), NONE) | v
            vals[a.vararg.arg] = frozenset([t])
        names = [p.arg for p in pos + a.kwonlyargs]
        extra = {k: v for k, v in kw.items() if k not in names and k != "**"}
        for k, v in kw.items():
            if k in names:
                vals[k] = v
        if "**" in kw:
            for o in kw["**"]:
                for p in names:
                    if p not in vals:
                        pk = self.param_kind(n, p)
                        if pk not in IMMUTABLE:
                            v = self.read(st, o, "[%r]" % p)
                            for x in v:
                                if isinstance(x, Ext) and pk != "?":
                                    self.kinds.setdefault(x, pk)
                            if v:
                                vals[p] = v | vals.get(p, NONE)
                                d = default_of(n, p)
                                if d is not None and mutable_default(d):
                                    vals[p] |= {self.default_obj(f.cls, n, p, d)}
        for p in names:
            if p not in vals:
                d = default_of(n, p)
                if d is not None and mutable_default(d):
                    vals[p] = frozenset([self.default_obj(f.cls, n, p, d)])
                else:
                    vals[p] = NONE
        if a.kwarg:
            d = self.alloc(node, "dict")
            for k, v in extra.items():
                st.heap[(d, "[%r]" % k)] = st.heap.get((d, "[%r]" % k), NONE) | v
            vals[a.kwarg.arg] = frozenset([d])
        env = dict(f.env) if f.env else {}
        if f.env is not None:
            # closures see the current values of the defining function when still active
            env.update({k: v for k, v in st.env.items() if k in f.env or k not in vals})
        env.update(vals)
        inner = State(env, st.heap)
        before = {o for o, _ in st.heap}
        for v in list(st.env.values()) + list(vals.values()):
            before |= v
        nm = ("%s.%s" % (f.cls, f.name) if f.cls else f.name)
        self.seen.add(nm)
        self.stack.append((nm, getattr(node, "lineno", 0)))
        self.active = self.active | {key}
        self.frames = self.frames + [(f.cls, f.self_ if f.self_ is not None and not isinstance(f.self_, Name) else None)]
        brk, self.brk = self.brk, []
        try:
            if isinstance(n, ast.Lambda):
                r = self.ev(n.body, inner)
                st.heap = inner.heap
                return r
            out = []
            end = self.block(n.body, inner, out)
            if end is not None:
                out.append((end, NONE))
            r, fin = NONE, None
            for s, v in out:
                r |= v
                fin = s if fin is None else self.join(fin, s)
            if fin is not None:
                st.heap = self.collect(fin.heap, before, r)
            if mk is not None:
                self.memo[mk] = (r, dict(st.heap))
            return r
        finally:
            self.stack.pop()
            self.active = self.active - {key}
            self.frames = self.frames[:-1]
            self.brk = brk

    active = frozenset()

    def collect(self, heap, before, result):
        """drops what the callee created and nobody can reach any more"""
        by = {}
        for (o, f), v in heap.items():
            by.setdefault(o, []).append(v)
        live, todo = set(), [o for o in by if isinstance(o, Ext) or o in before] + list(result)
        while todo:
            o = todo.pop()
            if o in live:
                continue
            live.add(o)
            for v in by.get(o, ()):
                todo += [x for x in v if x not in live]
            if isinstance(o, Fn):
                if o.env:
                    for v in o.env.values():
                        todo += [x for x in v if x not in live]
                if o.self_ is not None:
                    todo.append(o.self_)
            elif isinstance(o, Name) and o.obj is not None and not isinstance(o.obj, tuple):
                todo.append(o.obj)
        return {k: v for k, v in heap.items() if k[0] in live}

    def param_kind(self, n, p):
        for a in n.args.args + n.args.kwonlyargs:
            if a.arg == p:
                return ann_kind(a.annotation, self.t.classes)
        return "?"

    def call_lib(self, f, args, kw, star, st, e):
        if f.kind == "method":
            o, name = f.obj, f.name
            if name in MUTATORS and not (isinstance(o, Alloc) and o.kind == "?"):
                vals = NONE
                if name in STORING and args:
                    vals = args[-1]
                elif name in ("extend", "update") and args:
                    for x in args[0]:
                        vals |= self.contents(st, x)
                elif name == "setdefault" and len(args) > 1:
                    vals = args[1]
                r = self.contents(st, o) if name in ("pop", "setdefault", "popitem") else NONE
                if name in ("put", "add", "resize", "fill", "update", "insert", "clear", "partition", "remove") and \
                        self.kind(o) in ("?",) and isinstance(o, Ext) and o.path and plotting(o):
                    return NONE
                f_ = "[]"
                if name in ("update",):
                    for k, v in kw.items():
                        vals |= v
                if e.args and name in ("pop", "setdefault", "__setitem__"):
                    f_ = self.field(e.args[0])
                self.write(st, o, f_, vals, e, ".%s()" % name, strong=False)
                return r
            if name in ALIAS_M and self.kind(o).startswith(("array", "?")):
                return frozenset([o])
            if name in ("copy",):
                a = self.alloc(e, self.kind(o) if not self.kind(o).startswith("obj") else "?")
                self.copy_into(st, a, o)
                return frozenset([a])
            if name in ("items",):
                a, t = self.alloc(e, "list"), Alloc(self.site(e) + ("t",), "tuple")
                st.heap[(a, "[]")] = frozenset([t])
                st.heap[(t, "[1]")] = st.heap.get((t, "[1]"), NONE) | self.contents(st, o)
                return frozenset([a])
            if name in ("values",):
                a = self.alloc(e, "list")
                st.heap[(a, "[]")] = st.heap.get((a, "[]"), NONE) | self.contents(st, o)
                return frozenset([a])
            if name == "get":
                r = self.read(st, o, self.field(e.args[0])) if e.args else NONE
                return r | (args[1] if len(args) > 1 else NONE)
            if name in ("keys",):
                return NONE
            if name == "pop":
                return self.contents(st, o)
            return frozenset([self.alloc(e, "array" if name in ("astype", "flatten", "full") else "?")])
        name = f.name
        if name == "copy.deepcopy":
            k = {self.kind(o) for o in args[0]} if args else set()
            k = k.pop() if len(k) == 1 else "?"
            if k.startswith("obj:"):
                return frozenset([self.alloc(e, "deep", k[4:])])
            return frozenset([self.alloc(e, k)])
        if name in SHALLOW:
            a = self.alloc(e, "list")
            if name in ("copy.copy", "dict") and args:
                ks = {self.kind(o) for o in args[0]}
                k = ks.pop() if len(ks) == 1 else "?"
                a = self.alloc(e, "obj", k[4:]) if k.startswith("obj:") else self.alloc(e, k if name != "dict" else "dict")
                for o in args[0]:
                    self.copy_into(st, a, o)
                for k2, v in kw.items():
                    if k2 == "**":
                        for o in v:
                            self.copy_into(st, a, o)
                    elif v:
                        st.heap[(a, "[%r]" % k2)] = v
                return frozenset([a])
            if name == "dict":
                a = self.alloc(e, "dict")
                for k2, v in kw.items():
                    if k2 == "**":
                        for o in v:
                            self.copy_into(st, a, o)
                    elif v:
                        st.heap[(a, "[%r]" % k2)] = v
                return frozenset([a])
            if name in ("zip", "enumerate", "map"):
                t = Alloc(self.site(e) + ("t",), "tuple")
                off = 1 if name == "enumerate" else 0
                if name == "map":
                    v = NONE
                    for x in args[1:]:
                        for o in x:
                            v |= self.contents(st, o)
                    r = NONE
                    for fn in args[0] if args else ():
                        if isinstance(fn, Fn):
                            r |= self.call_fn(fn, [v], {}, st, e)
                    st.heap[(a, "[]")] = st.heap.get((a, "[]"), NONE) | r
                    return frozenset([a])
                for k, x in enumerate(args[:1] if name == "enumerate" else args):
                    v = frozenset().union(*[self.contents(st, o) for o in x] or [NONE])
                    if v:
                        st.heap[(t, "[%d]" % (k + off))] = st.heap.get((t, "[%d]" % (k + off)), NONE) | v
                for x in star:
                    for o in x:
                        for y in self.contents(st, o):
                            st.heap[(t, "[]")] = st.heap.get((t, "[]"), NONE) | self.contents(st, y)
                st.heap[(a, "[]")] = frozenset([t])
                return frozenset([a])
            for x in args + star:
                for o in x:
                    v = self.contents(st, o)
                    if v:
                        st.heap[(a, "[]")] = st.heap.get((a, "[]"), NONE) | v
            return frozenset([a])
        if name in ALIAS:
            r = NONE
            for x in args[:1]:
                r |= x
            return frozenset(o for o in r if not isinstance(o, (Fn, Name)))
        if name in ("np.array",):
            a = self.alloc(e, "array")
            cp = [k for k in e.keywords if k.arg == "copy"]
            if cp and isinstance(cp[0].value, ast.Constant) and cp[0].value.value is False and args:
                return args[0] | {a}
            return frozenset([a])
        if name in FIRST_MUTATED and args:
            for o in args[0]:
                self.write(st, o, "[]", NONE, e, name, strong=False)
            return NONE
        if "out" in kw and name.startswith("np."):
            for o in kw["out"]:
                self.write(st, o, "[]", NONE, e, "out=", strong=False)
                for x in self.contents(st, o) if self.kind(o) == "tuple" else ():
                    self.write(st, x, "[]", NONE, e, "out=", strong=False)
            return kw["out"]
        if name == "setattr" and len(args) > 2:
            f_ = e.args[1].value if isinstance(e.args[1], ast.Constant) else "*"
            for o in args[0]:
                self.write(st, o, f_, args[2], e, "setattr")
            return NONE
        if name in ("getattr",) and args:
            r = NONE
            for o in args[0]:
                if len(e.args) > 1 and isinstance(e.args[1], ast.Constant):
                    r |= self.e_Attribute(ast.copy_location(ast.Attribute(value=e.args[0], attr=e.args[1].value,
                                                                          ctx=ast.Load()), e), st)
            return r | (args[2] if len(args) > 2 else NONE)
        if name in ("vars",) and args:
            return args[0]
        if name in ("type",) and len(args) == 1:
            return frozenset(Name("class", self.kind(o)[4:]) for o in args[0] if self.kind(o).startswith("obj:"))
        if name in ("next", "max", "min") and args:
            r = NONE
            if name == "next":
                for o in args[0]:
                    r |= self.contents(st, o)
            return r
        if name in ("len", "range", "int", "float", "str", "bool", "isinstance", "hasattr", "print", "abs", "round",
                    "any", "all", "sum", "repr", "callable", "id"):
            return NONE
        return frozenset([self.alloc(e, "array" if name.startswith("np.") else "?")])

    # ----------------------------------------------------------------- results
    def reach(self, st, o, seen=None, depth=0):
        """objects of the caller reachable from o in the final state, with the path"""
        out = []
        seen = seen if seen is not None else set()
        todo = [(o, ())]
        while todo:
            x, p = todo.pop()
            if x in seen or len(p) > 6:
                continue
            seen.add(x)
            if isinstance(x, Ext):
                out.append((x, p))
                continue
            if isinstance(x, Alloc):
                for (b, f), v in st.heap.items():
                    if b == x:
                        for y in v:
                            if f == "<copy>":
                                out += [(z, p + ("*",)) for z in self.shared_parts(y)]
                            else:
                                todo.append((y, p + (f,)))
        return out

    def shared_parts(self, y):
        """mutable parts of a shallowly copied object of the caller"""
        k = self.kind(y)
        if k.startswith("obj:"):
            return [Ext(y.root, y.path + (a,)) for a, t in sorted(self.t.types[k[4:]].items())
                    if t.startswith(("list", "dict", "array"))]
        if k.startswith("list:") or k in ("array1", "array2", "array"):
            return []
        return []


ATOMS = {"int", "float", "str", "bool", "np.integer", "np.floating", "numbers.Number", "numbers.Integral", "complex"}


def scalars_if(t):
    """(names that hold a number, string or None when the test is true, the same when it is false)"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        a, b = scalars_if(t.operand)
        return b, a
    if isinstance(t, ast.BoolOp):
        ps = [scalars_if(x) for x in t.values]
        if isinstance(t.op, ast.And):
            return set().union(*[p[0] for p in ps]), set()
        return set(), set().union(*[p[1] for p in ps])
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and len(t.args) == 2 \
            and isinstance(t.args[0], ast.Name):
        ts = t.args[1].elts if isinstance(t.args[1], ast.Tuple) else [t.args[1]]
        if all((dotted(x) or "") in ATOMS for x in ts):
            return {t.args[0].id}, set()
    if isinstance(t, ast.Call) and (dotted(t.func) or "") in ("np.isscalar",) and t.args and \
            isinstance(t.args[0], ast.Name):
        return {t.args[0].id}, set()
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and \
            isinstance(t.comparators[0], ast.Constant):
        n = {t.left.id}
        if isinstance(t.ops[0], (ast.Is, ast.Eq)):
            return n, set()
        if isinstance(t.ops[0], (ast.IsNot, ast.NotEq)):
            return set(), n
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Call) and \
            isinstance(t.left.func, ast.Name) and t.left.func.id == "type" and t.left.args and \
            isinstance(t.left.args[0], ast.Name) and (dotted(t.comparators[0]) or "") in ATOMS:
        n = {t.left.args[0].id}
        return (n, set()) if isinstance(t.ops[0], (ast.Is, ast.Eq)) else (set(), n)
    return set(), set()


def plotting(o):
    return any(x in ("fig", "axs", "ax") for x in o.path) or "ax" in o.root or "fig" in o.root


def is_static(n):
    return any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in getattr(n, "decorator_list", ()))


def is_class(n):
    return any(isinstance(d, ast.Name) and d.id == "classmethod" for d in getattr(n, "decorator_list", ()))


def is_property(n):
    return any(isinstance(d, ast.Name) and d.id == "property" for d in getattr(n, "decorator_list", ()))


def default_of(fn, name):
    a = fn.args
    pos = a.args
    for i, p in enumerate(pos):
        if p.arg == name:
            k = i - (len(pos) - len(a.defaults))
            return a.defaults[k] if k >= 0 else None
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if p.arg == name:
            return d
    return None
