"""C01-C11: the value graph of the NLP against the specification, for all sizes."""
import ast, random, traceback
from . import terms as tm
from .terms import ev, lift, Undecided, T
from .values import *
from . import arrays as ar
from .nlpspec import Build, Spec, numbers, match_rows, close, vacuous, INF, row_eq, flat
from .harness import valuation
from .report import Report, SRC, pmap
from .sizes import grown, grow

PROPS = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11"]
CLASSES = ["mpopt", "mpopt_adaptive", "mpopt_h_adaptive", "mpopt_ph_adaptive"]
CONFIGS = [("sym", "sym", "sym"), (1, "sym", "sym"), ("sym", 0, "sym"), (1, 0, "sym")]

BLAME = {"dynamics": "get_dynamics", "path": "get_path_constraints", "terminal": "get_terminal_constraints",
         "slope limits": "diff_u", "mid point controls": "midu", "slope continuity": "du_continuity",
         "state link": "phase_links", "control link": "phase_links", "time link": "phase_links",
         "sum of widths": "sum1", "mid point states": "seg_widths", "mid point residual": "mid_residuals",
         "objective": "get_running_costs"}


class Sources:
    def __init__(self, path=SRC):
        self.tree = ast.parse(open(path).read())
        self.classes = {}
        for n in self.tree.body:
            if isinstance(n, ast.ClassDef):
                self.classes[n.name] = (
                    [b.id for b in n.bases if isinstance(b, ast.Name)],
                    {m.name: m for m in n.body if isinstance(m, ast.FunctionDef)})

    def mro(self, c):
        out = [c]
        for b in self.classes.get(c, ((), {}))[0]:
            out += self.mro(b)
        return out

    def reading(self, cls, attr):
        """first method (most derived class first) that mentions the attribute"""
        for c in self.mro(cls):
            if c not in self.classes:
                continue
            for name, f in self.classes[c][1].items():
                for n in ast.walk(f):
                    if isinstance(n, ast.Attribute) and n.attr == attr:
                        return "%s.%s line %d" % (c, name, n.lineno)
        return cls


def sizes(rng, b):
    P = 1 if b.key[1] == 1 else rng.choice([2, 3])
    S = rng.choice([1, 2, 3])
    p = tuple(rng.choice([1, 2, 3]) for _ in range(S))
    if S > 1 and len(set(p)) == 1 and rng.random() < 0.7:
        p = (p[0] % 3 + 1,) + p[1:]
    return dict(P=P, na=0 if b.key[2] == 0 else rng.choice([1, 2]), nx=rng.choice([1, 2, 3]),
                nu=rng.choice([1, 2]), S=S, p=p)


def nlp_valuation(seed, k, b, sz=None, larger=None):
    """sizes, switches and infinite bounds drawn from the seed"""
    rng = random.Random("%s/%s/%s" % (seed, k, b.key))
    sz = sz or sizes(rng, b)
    if larger is not None:
        sz = grow(dict(sz, nx=min(sz["nx"], 2), S=min(sz["S"], 2), p=sz["p"][:2]), *larger)
    P = sz["P"]
    flags = {}
    for n in ("has_pc", "has_tcon", "diff_u", "midu", "du_continuity"):
        flags[n] = [rng.choice([0, 1]) for _ in range(P)]
    npc = [rng.choice([1, 2, 3]) for _ in range(P)]
    ntc = [rng.choice([1, 2, 3]) for _ in range(P)]
    nl = 0 if P == 1 else rng.choice([1, P - 1, 2])
    links = []
    for l in range(nl):
        i = rng.randrange(P)
        j = rng.choice([x for x in range(P) if x != i])
        links.append((i, j))
    links.sort(key=lambda x: x[0] > x[1])
    over = {"npc": lambda q: npc[int(q)], "ntcon": lambda q: ntc[int(q)], "nlinks": nl,
            "link_i": lambda v: links[int(v)][0], "link_j": lambda v: links[int(v)][1],
            "user_mid_residuals": rng.choice([0, 1, 1])}
    for n in flags:
        over[n] = (lambda l: lambda q: l[int(q)])(flags[n])
    salt = rng.random()
    mode = {}

    def bound(name, sign):
        # per phase: all infinite, some infinite, none
        def f(p, i=0):
            if p not in mode:
                mode[p] = rng.choice([0, 1, 2, 2])
            m = random.Random("%s%s%s" % (salt, name[2:], p)).choice([0, 1, 2])
            r = random.Random("%s%s%s%s" % (salt, name, p, i)).random()
            if m == 0 or (m == 1 and r < 0.5):
                return sign * INF
            return tm.hashreal(seed, name, (p, i)) + (sign - 1)
        return f
    for n in ("lbx", "lbu", "lba", "lbt0", "lbtf", "lbdu", "lbe"):
        over[n] = bound(n, -1)
    for n in ("ubx", "ubu", "uba", "ubt0", "ubtf", "ubdu", "ube"):
        over[n] = bound(n, 1)
    e = valuation(seed=seed * 1000 + k, over=over, **sz)
    e.sizes = dict(sz, flags=flags, links=links)
    return e


def numvec(v):
    """numbers of a vector, nan where undecided -> (list, reasons)"""
    v = resolve(v)
    why = []
    if isinstance(v, Arr):
        if v.kind == "ca" and v.ndim == 2:
            r, c = [int(ev(s)) for s in v.shape]
            idx = [(i, j) for j in range(c) for i in range(r)]
        else:
            dims = [int(ev(s)) for s in v.shape]
            idx = [()]
            for d in dims:
                idx = [i + (k,) for i in idx for k in range(d)]
        out = []
        for i in idx:
            try:
                out.append(tm.norm_num(ev(v.at(*[lift(x) for x in i]))))
            except Undecided as ex:
                out.append(float("nan"))
                why.append(str(ex))
        return out, why
    return numbers(v), why


def check_build(b, seed, nval, rep, src, larger=True):
    cls = b.cls
    adaptive = cls == "mpopt_adaptive"
    where = lambda attr: src.reading(cls, attr)
    tag = "%s %s" % (cls, "/".join(str(x) for x in b.key[1:]))
    rep.analysed |= set(b.it.called)
    for (line, why), n in b.it.notes.items():
        rep.undec("%s line %s" % (cls, line), why)
    if b.prob is None or not b.nlpsol:
        rep.undec(tag, "no NLP solver creation found")
        return
    start = None
    try:
        start = b.it.call(b.it.getattr(b.mp, "initialize_solution", None), [], {}, None)
    except Exception as ex:
        rep.undec(tag + " start", ex)
    seen = {}
    small = [(k, None) for k in range(nval)]
    large = [(nval + k, d) for k, d in enumerate(grown(b.path)) if not (
        d[0] == "P" and b.key[1] == 1 or d[0] == "na" and b.key[2] == 0)]
    for k, d in small + (large if larger else []):
        e = nlp_valuation(seed, k, b, larger=d)
        with tm.use_env(e):
            try:
                one(b, e, adaptive, rep, where, tag, start)
            except Undecided as ex:
                rep.undec(tag, ex)


def one(b, e, adaptive, rep, where, tag, start):
    add = lambda prop, rule, construct, detail: rep.add(prop, rule, "%s (%s)" % (construct, b.cls),
                                                       detail + " [sizes %s]" % (
                                                           {k: v for k, v in e.sizes.items() if k != "flags"},))
    errors(b, add, rep)
    s = Spec(b, adaptive)
    rows, catalog, J = s.build()
    variables = s.variables()
    spec_calls = s.calls
    # ---------------------------------------------------------------- names
    for k in ("f", "x", "g"):
        if b.field(b.prob, k) is None:
            add("C09", "problem entry %s missing" % k, where("nlpsol"), "the NLP handed to the solver lacks %r" % k)
            return
    for k in ("lbg", "ubg", "lbx", "ubx"):
        if b.field(b.bounds, k) is None:
            add("C09", "bounds entry %s missing" % k, where("nlp_bounds"), "the NLP bounds lack %r" % k)
            return
    log = e.log = set()
    g, why = numvec(b.field(b.prob, "g"))
    lo, w1 = numvec(b.field(b.bounds, "lbg"))
    hi, w2 = numvec(b.field(b.bounds, "ubg"))
    z, w3 = numvec(b.field(b.prob, "x"))
    zl, w4 = numvec(b.field(b.bounds, "lbx"))
    zu, w5 = numvec(b.field(b.bounds, "ubx"))
    unknown = set(why + w1 + w2)
    for w in unknown | set(w3 + w4 + w5):
        rep.undec(tag, w)
    rep.ob("NLP rows compared", len(rows))
    rep.ob("variables compared", len(variables))
    # ---------------------------------------------------------------- sizes
    if not (len(g) == len(lo) == len(hi)):
        add("C09", "constraint bounds length", where("nlp_bounds"),
            "%d constraints, %d lower bounds, %d upper bounds" % (len(g), len(lo), len(hi)))
    if not (len(z) == len(zl) == len(zu)):
        add("C09", "variable bounds length", where("nlp_bounds"),
            "%d variables, %d lower bounds, %d upper bounds" % (len(z), len(zl), len(zu)))
    # ----------------------------------------------------------------- rows
    n = min(len(g), len(lo), len(hi))
    act = list(zip(g[:n], lo[:n], hi[:n]))
    nun = sum(1 for r in act if any(x != x for x in r))
    act = [r for r in act if not any(x != x for x in r)]
    missing, extra = match_rows(rows, act)
    if nun:
        # unknown rows may be the ones not found
        if len(missing) <= nun:
            missing = []
    fams = {}
    for m in missing:
        fams.setdefault((m[0], m[1]), []).append(m)
    for (prop, fam), ms in fams.items():
        m = ms[0]
        vals = [r for r in act if close(abs(r[0]), abs(m[3]))]
        detail = "%d of the %s rows required are not in the NLP (e.g. phase/link %s: value %.6g in [%g, %g]%s)" % (
            len(ms), fam, m[2], m[3], m[4], m[5],
            "; its value is there with bounds [%g, %g]" % vals[0][1:] if vals else "")
        add(prop, "missing %s rows" % fam, where(BLAME[fam]), detail)
    if missing:
        # right values and right bounds, wrong pairing
        bad_pair = [m for m in missing if any(close(abs(r[0]), abs(m[3])) for r in act)]
        if bad_pair and len(bad_pair) == len(missing):
            add("C09", "rows paired with other rows' bounds", where("nlp_bounds"),
                "%d constraint rows carry other bounds than required" % len(bad_pair))
    if extra and not missing:
        unex = []
        for r in extra:
            fam = [c for c in catalog if close(abs(c[3]), abs(r[0]))]
            if fam:
                add(fam[0][0], "%s rows not asked for" % fam[0][1], where(BLAME[fam[0][1]]),
                    "phase %s has %s rows although it does not enable them" % (fam[0][2], fam[0][1]))
                continue
            same = [c for c in rows if close(abs(c[3]), abs(r[0]))]
            if same:
                add(same[0][0], "%s rows repeated or bounded otherwise" % same[0][1], where(BLAME[same[0][1]]),
                    "row %.6g in [%g, %g] is not required" % r)
                continue
            unex.append(r)
        if unex:
            add("C09", "rows not required", where("create_nlp"), "%d rows are not required by any rule, e.g. %.6g in "
                "[%g, %g]" % ((len(unex),) + unex[0]))
    # ------------------------------------------------------------ objective
    f, wf = numvec(b.field(b.prob, "f"))
    for w in wf:
        rep.undec(tag + " objective", w)
    rep.ob("objective compared")
    if len(f) == 1 and f[0] == f[0] and not close(f[0], J):
        add("C07", "objective differs", where("J"), "objective %.9g, required %.9g" % (f[0], J))
    # ------------------------------------------------------------ callbacks
    if not unknown and not wf:
        act_calls = set(log)
        rep.ob("user function evaluations compared", len(spec_calls))
        calls_compare(spec_calls, act_calls, add, where, missing or extra)
    # ------------------------------------------------------------ variables
    n = min(len(z), len(zl), len(zu))
    byval = {}
    for v in variables:
        byval.setdefault(round(v[0], 6), []).append(v)
    found = {}
    for i in range(len(z)):
        vs = sorted((v for v in variables if close(v[0], z[i], 1e-7)), key=lambda v: abs(v[0] - z[i]))
        if z[i] != z[i]:
            continue
        if not vs:
            add("C09", "unknown variable", where("get_nlp_variables"), "entry %d of the variable vector is not one of "
                "the decision variables" % i)
            continue
        v = vs[0]
        if v[1] in found:
            add("C09", "variable listed twice", where("get_nlp_variables"), v[1])
        found[v[1]] = i
        if i < n and zl[i] == zl[i] and zu[i] == zu[i]:
            if not close(zl[i], v[2]) or not close(zu[i], v[3]):
                kind = v[1].split()[0]
                prop = "C11" if kind == "width" else "C02"
                add(prop, "bounds of a %s" % kind, where("lb" + {"state": "x", "control": "u", "start": "t0",
                                                                  "end": "tf", "parameter": "a", "width": "h"}[kind]),
                    "%s is bounded by [%g, %g], required [%g, %g]" % (v[1], zl[i], zu[i], v[2], v[3]))
    if not w3:
        lost = [v[1] for v in variables if v[1] not in found]
        if lost:
            add("C09", "variable missing", where("get_nlp_variables"), "%s is not a decision variable" % lost[0])
    # -------------------------------------------------------------- start
    if start is not None and not w3:
        try:
            z0, w6 = numvec(start)
            for w in w6:
                rep.undec(tag + " start", w)
            rep.ob("start values compared", len(z0))
            if len(z0) != len(z):
                add("C03", "length of the starting point", where("init_solution_per_phase"),
                    "%d entries for %d variables" % (len(z0), len(z)))
            else:
                inv = {i: nme for nme, i in found.items()}
                val = {v[1]: v[4] for v in variables}
                for i in range(len(z0)):
                    if i in inv and z0[i] == z0[i] and not close(z0[i], val[inv[i]]):
                        kind = inv[i].split()[0]
                        add("C11" if kind == "width" else "C03", "start value of a %s" % kind,
                            where({"state": "x00", "control": "u00", "start": "t00", "end": "tf0", "parameter": "a0",
                                   "width": "n_segments"}[kind]),
                            "%s starts from %.6g, required %.6g" % (inv[i], z0[i], val[inv[i]]))
        except Undecided as ex:
            rep.undec(tag + " start", ex)
    # ------------------------------------------------------------ node times
    try:
        tg = b.it.freeze(b.attrs.get("time_grid"))
        for p in range(s.P):
            l = b.it.as_list(b.it.as_list(tg).get(lift(p)))
            for i in range(s.N):
                t = ev(ar.to_scalar(l.get(lift(i))))
                rep.ob("node times compared")
                if not close(t, s.node_time(i, p)):
                    add("C10", "time of a node", where("time_grid"), "node %d of phase %d: %.9g, required %.9g" % (
                        i, p, t, s.node_time(i, p)))
    except (Undecided, Unsupported) as ex:
        rep.undec(tag + " node times", ex)


def reachable(e):
    """the event happens for some loop indices under the active valuation"""
    env = tm.CUR
    saved = dict(env.bind)
    count = [0]

    def go(k):
        if k == len(e.loops):
            count[0] += 1
            for c, v in e.facts:
                if bool(ev(c)) != bool(v):
                    return False
            return True
        v, n = e.loops[k]
        for j in range(int(ev(n))):
            if count[0] > 2000:
                return False
            env.bind[v] = j
            if go(k + 1):
                return True
        return False
    try:
        return go(0)
    except Undecided:
        return False
    finally:
        env.bind.clear()
        env.bind.update(saved)


ANCHORS = None


def anchored(fn):
    """NLP properties whose mechanism names the function"""
    global ANCHORS
    if ANCHORS is None:
        import json, os
        from .report import VERIF
        ANCHORS = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
    short = fn.split(".")[-1]
    out = []
    for d in ANCHORS:
        if d["id"] in PROPS and any(short in m["where"].replace(",", " ").replace(".", " ").replace(":", " ").split()
                                    for m in d["anchors"]["mechanism"]):
            out.append(d["id"])
    return out or ["C09"]


def errors(b, add, rep):
    for e in b.it.events:
        if e.kind == "typeerror":
            rep.ob("possible type errors examined")
            if reachable(e):
                # only path and terminal functions return None
                for prop in (["C05"] if "None" in e.data["what"] else anchored(e.where[0])):
                    add(prop, "the NLP cannot be built: %s" % e.data["what"], "%s line %d" % e.where,
                        "evaluation raises an error for this configuration")


UNITS = {"dyn": "dynamics", "pc": "path constraints", "rc": "running cost", "tc": "terminal cost",
         "tcon": "terminal constraints"}
GETTER = {"dyn": "get_dynamics", "pc": "get_path_constraints", "rc": "get_running_costs", "tc": "get_terminal_costs",
          "tcon": "get_terminal_constraints"}
ARGN = {0: ["x", "u", "t", "a"], 1: ["xf", "tf", "x0", "t0", "a"]}


def args_close(a, b):
    return len(a) == len(b) and all(len(x) == len(y) and all(close(p, q) for p, q in zip(x, y)) for x, y in zip(a, b))


def calls_compare(spec, act, add, where, rows_wrong):
    """every evaluation of a user function in the NLP is one of the required ones"""
    for fam in GETTER:
        se = [c for c in spec if c[0] == fam]
        ac = [c for c in act if c[0] == fam]
        for c in ac:
            if any(c[1] == d[1] and args_close(c[2], d[2]) for d in se):
                continue
            if any(args_close(c[2], d[2]) for d in se):
                add("C01", "%s of another phase" % UNITS[fam], where(GETTER[fam]),
                    "phase %d's function is evaluated on another phase's node" % c[1])
                continue
            near = [d for d in se if d[1] == c[1] and len(d[2]) == len(c[2]) and
                    sum(args_close((x,), (y,)) for x, y in zip(d[2], c[2])) >= len(c[2]) - 1]
            names = ARGN[1 if fam in ("tc", "tcon") else 0]
            if near:
                d = near[0]
                bad = [names[i] for i in range(len(d[2])) if not args_close((d[2][i],), (c[2][i],))]
                if bad == ["t"] and fam in ("dyn", "pc", "rc"):
                    add("C10", "time passed to %s" % UNITS[fam], where(GETTER[fam]),
                        "%.9g, required %.9g" % (c[2][2][0] if c[2][2] else 0, d[2][2][0]))
                add("C01", "argument %s of %s" % (",".join(bad), UNITS[fam]), where(GETTER[fam]),
                    "not in user units, or of another phase or node")
            else:
                add("C01", "arguments of %s" % UNITS[fam], where(GETTER[fam]),
                    "no node of the phase has these arguments (%d arguments)" % len(c[2]))


def run_one(job):
    cls, cfgk, seed, nval, path = job
    import sys
    sys.setrecursionlimit(20000)
    rep = Report()
    try:
        src = Sources(path)
        b = Build(cls, *cfgk, path=path)
        check_build(b, seed, nval, rep, src)
    except Undecided as ex:
        rep.undec("%s %s" % (cls, cfgk), ex)
    except RecursionError:
        rep.undec("%s %s" % (cls, cfgk), "recursion limit of the analysis")
    except Exception as ex:
        rep.undec("%s %s" % (cls, cfgk), "analysis stopped: %s" % (traceback.format_exc(limit=-3)))
    return rep


def run(seed, tier, path=SRC):
    nval = 4 if tier == "quick" else 24
    jobs = [(c, k, seed, nval, path) for c in CLASSES for k in CONFIGS]
    rep = Report()
    for r in pmap(run_one, jobs, rep):
        rep.merge(r)
    rep.rules = ["NLP value graph equals the specification: rows as multisets of (value, lower, upper), objective, "
                 "variables, bounds, starting point, callback arguments and node times"]
    return rep
