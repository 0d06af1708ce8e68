"""C04 reducers: every group is recomputed from the plain values."""
from vlib.common import *

META = {
    "property": "C04",
    "cases": {"quick": 26000, "thorough": 600000},
    "rule": "a case is one random nested numeric array in a random layout reduced by 4 random (reducer, axis, keepdims, mask_identity, initial) choices; distinct = (reducer, axis, flags, layout signature); non-trivial = at least one group was compared",
    "assumptions": ["64-bit integer sums and products wrap around modulo 2**64", "floating-point results are compared with a relative tolerance of 1e-9 (1e-4 for float32), because the order of additions is not specified"],
}
CFG = Cfg(strings=False, bytestrings=False, records=False, unions=False, extremes=0.03)
OPS = ["count", "count_nonzero", "sum", "prod", "any", "all", "min", "max", "argmin", "argmax"]
WRAP = 2 ** 64


def leaf_dtype(ty):
    while ty.kind != "prim":
        ty = ty.content
    return ty.dtype


def result_dtype(op, dtype):
    if op in ("count", "count_nonzero", "argmin", "argmax"):
        return "int64"
    if op in ("any", "all"):
        return "bool"
    if op in ("sum", "prod"):
        return np.dtype(getattr(np, op)(np.zeros(1, dtype)).dtype).name
    return dtype


def identity(op, dtype, initial):
    if op in ("count", "count_nonzero", "sum"):
        x = 0
    elif op == "prod":
        x = 1
    elif op == "any":
        return False
    elif op == "all":
        return True
    elif op in ("argmin", "argmax"):
        return -1
    else:
        big = op == "min"
        if initial is not None:
            x = initial
        elif dtype == "bool":
            return big
        elif dtype.startswith("float"):
            return float("inf") if big else float("-inf")
        else:
            x = int(np.iinfo(dtype).max if big else np.iinfo(dtype).min)
    r = result_dtype(op, dtype)
    return float(x) if r.startswith("float") else (bool(x) if r == "bool" else int(x))


def wrap(x, r):
    if r.startswith("uint"):
        return x % WRAP
    x %= WRAP
    return x - WRAP if x >= WRAP // 2 else x


def reduce_group(op, items, dtype, mask, initial):
    """items: [(position, value)] without missing values."""
    if not items:
        return None if mask else identity(op, dtype, initial)
    vs = [v for _, v in items]
    r = result_dtype(op, dtype)
    if op == "count":
        return len(vs)
    if op == "count_nonzero":
        return sum(1 for v in vs if v != 0)
    if op in ("any", "all"):
        return bool({"any": any, "all": all}[op](v != 0 for v in vs))
    if op in ("sum", "prod"):
        if r.startswith("float"):
            out = 0.0 if op == "sum" else 1.0
            for v in vs:
                out = out + v if op == "sum" else out * v
            return out
        out = 0 if op == "sum" else 1
        for v in vs:
            out = out + int(v) if op == "sum" else out * int(v)
        return wrap(out, r)
    if op in ("min", "max"):
        out = (min if op == "min" else max)(vs)
        if initial is not None:
            out = (min if op == "min" else max)(out, initial)
        return float(out) if r.startswith("float") else (bool(out) if r == "bool" else int(out))
    best = (min if op == "argmin" else max)(vs)
    for p, v in items:
        if v == best:
            return p


def combine(ty, items, args):
    if ty.kind == "opt":
        ty = ty.content
        items = [(p, v) for p, v in items if v is not None]
    if ty.kind == "prim":
        return reduce_group(args["op"], items, ty.dtype, args["mask"], args["initial"])
    n = max([len(v) for _, v in items] or [0])
    if ty.kind == "reg" and not items and ty.size:
        raise Ambiguous()
    return [combine(ty.content, [(p, v[j]) for p, v in items if j < len(v)], args) for j in range(n)]


def model(ty, vals, axis, args):
    if axis == 0:
        x = combine(ty, list(enumerate(vals)), args)
        return [x] if args["keepdims"] else x
    t = ty.content if ty.kind == "opt" else ty
    return [None if v is None else model(t.content, v, axis - 1, args) for v in vals]


def leaves(ty, v, out):
    if v is None:
        return
    if ty.kind == "opt":
        return leaves(ty.content, v, out)
    if ty.kind == "prim":
        out.append(v)
    else:
        for x in v:
            leaves(ty.content, x, out)


def layout_dtype(x):
    if isinstance(x, ak.Array):
        x = x.layout
    if isinstance(x, ak.partition.PartitionedArray):
        x = x.partitions[0]
    while not isinstance(x, L.NumpyArray):
        if isinstance(x, L.EmptyArray):
            return None
        x = x.content
    return np.asarray(x).dtype.name


def nestable(rng):
    cfg = CFG.but(nan=False)
    while True:
        ty = rand_type(rng, cfg)
        return ty


def run_case(rng, rec, i):
    ty = rand_type(rng, CFG)
    vals = rand_values(rng, ty, CFG)
    lay = make_top(ty, vals, rng, CFG)
    arr = ak.Array(lay)
    depth = purelist_depths(ty)[0]
    dtype = leaf_dtype(ty)
    sig = describe(lay)
    tol = 1e-4 if dtype == "float32" else 1e-9
    for _ in range(4):
        op = rng.choice(OPS)
        axis = rng.choice([None] + 3 * list(range(-depth, depth)))
        kw = {}
        args = {"op": op, "keepdims": rng.random() < 0.3, "mask": op in ("min", "max", "argmin", "argmax"), "initial": None}
        if rng.random() < 0.5:
            args["mask"] = kw["mask_identity"] = rng.random() < 0.5
        if op in ("min", "max") and rng.random() < 0.3 and dtype != "bool":
            args["initial"] = kw["initial"] = rng.choice([0, 2, 5]) if not dtype.startswith("float") else rng.choice([0.0, 2.5, -1.5])
        what = "ak.%s(%s values %s, axis=%r, keepdims=%r, %r)" % (op, ty, short([strip(ty, v) for v in vals]), axis, args["keepdims"], kw)
        if axis is None:
            def mod():
                out = []
                for v in vals:
                    leaves(ty, v, out)
                if args["initial"] is not None:
                    raise Ambiguous()
                if not out:
                    raise Ambiguous()
                return reduce_group(op, list(enumerate(out)), dtype, args["mask"], args["initial"])
            kw2 = kw
        else:
            ax = axis if axis >= 0 else depth + axis

            def mod():
                if op.startswith("arg") and depth - ax >= 3:
                    # known finding C04-arg-deep
                    raise Ambiguous()
                return model(ty, vals, ax, args)
            kw2 = dict(kw, keepdims=args["keepdims"])
        res = expect(rec, op + (" axis=None" if axis is None else ""), what, mod, lambda: getattr(ak, op)(arr, axis=axis, **kw2), [lay], cmp=lambda a, b: close(a, b, tol) and kinds(a, b))
        rec.sig(op, axis, args["keepdims"], args["mask"], args["initial"], sig)
        if res is not None and axis is not None:
            got = layout_dtype(res) if isinstance(res, ak.Array) else (res.dtype.name if hasattr(res, "dtype") else None)
            if got is not None and got != result_dtype(op, dtype):
                raise Violation(op + ": wrong result type", "%s\nexpected %s, got %s" % (what, result_dtype(op, dtype), got))
        rec.sample(what)


def kinds(a, b):
    if isinstance(a, list):
        return all(kinds(x, y) for x, y in zip(a, b))
    if a is None:
        return b is None
    return (isinstance(a, bool) == isinstance(b, bool)) and (isinstance(a, float) == isinstance(b, float))
