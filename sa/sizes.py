"""sizes at which the code may behave differently: constants it compares with, and a size beyond the usual"""
import ast

CACHE = {}


def thresholds(path):
    """integer constants that the code compares, slices, counts or divides with"""
    if path not in CACHE:
        out = set()
        for n in ast.walk(ast.parse(open(path).read())):
            if isinstance(n, ast.Compare):
                src = [n.left] + list(n.comparators)
            elif isinstance(n, ast.Slice):
                src = [x for x in (n.lower, n.upper, n.step) if x is not None]
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("min", "max", "range"):
                src = n.args
            elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mod, ast.FloorDiv)):
                src = [n.right]
            else:
                continue
            for s in src:
                for c in ast.walk(s):
                    if isinstance(c, ast.Constant) and type(c.value) is int and 3 <= c.value <= 16:
                        out.add(c.value)
        CACHE[path] = sorted(out)
    return CACHE[path]


def grown(path, dims=("P", "nx", "nu", "na", "S", "p")):
    """(dimension, size) to try besides the small sizes"""
    vals = {5}
    for c in thresholds(path):
        if c > 4:
            vals |= {c, c + 1}
    return [(d, v) for v in sorted(vals) for d in dims]


def pick(rng, small, path, often=0.25):
    """a size: mostly one of the small ones"""
    if rng.random() < often:
        vals = [5] + [x for c in thresholds(path) if c > 4 for x in (c, c + 1)]
        return rng.choice(vals)
    return rng.choice(small)


def grow(sz, dim, v):
    sz = dict(sz)
    if dim == "S":
        sz["S"] = v
        sz["p"] = tuple((sz["p"] * v)[:v])
    elif dim == "p":
        sz["p"] = (v,) + tuple(sz["p"][1:])
    elif not (dim == "P" and sz["P"] == 1) and not (dim == "na" and sz["na"] == 0):
        sz[dim] = v
    return sz
