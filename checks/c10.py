"""C10 concatenation and merging: the inputs' values, one after the other."""
from vlib.ops import *
from vlib.model import *
from checks.c03 import has_zero

META = {
    "property": "C10",
    "technique": "runtime monitor: conservation oracle — the concatenated plain values of the inputs, list by list — compared with the library's result for random mixtures of types and layouts (ASan/UBSan build)",
    "cases": {"quick": 26000, "thorough": 700000},
    "rule": "a case is 1-5 arrays of equal, related or unrelated types in random layouts, concatenated along a random axis with random merge flags, or merged at layout level (merge, mergemany, merge_as_union, simplify); distinct = (axis, flags, layout signatures); non-trivial = all values were compared",
    "assumptions": ["merging integers with floating point (or uint64 with signed integers) promotes to float64, so integers beyond 2**53 are compared to 1e-15 in that case only", "True/False merged with numbers become 1/0 unless mergebool=False",
                    "what becomes of missing lists at axis >= 1 is not documented"],
}
CFG = Cfg(biglen=0.02, huge=0.1)
WIDE = ["int64", "float64", "bool", "uint8"] + [p for p in vgen.ALLPRIMS if p not in vgen.NUMS and p != "bool"] + ["datetime64[D]", "datetime64[us]", "timedelta64[ns]"]


def vary(rng, ty, cfg):
    """A type related to ty: other dtypes, an option more or less, other list encodings."""
    k = ty.kind
    r = rng.random()
    if k == "prim":
        if r < 0.4:
            if ty.dtype.startswith(("datetime", "timedelta")) and r < 0.3:
                return Prim(rng.choice([p for p in cfg.prims if p.startswith(ty.dtype[:4])]))
            return Prim(rng.choice(["int64", "float64", "int32", "uint8", "bool", "float32", "int8", "uint64", "int16"] + (["complex128", "complex64"] if "complex64" in cfg.prims else [])))
        return ty
    if k == "opt":
        return vary(rng, ty.content, cfg) if r < 0.3 else Opt(vary(rng, ty.content, cfg))
    if k == "list":
        c = vary(rng, ty.content, cfg)
        return Reg(c, rng.randint(1, 3)) if r < 0.1 else Lst(c)
    if k == "reg":
        c = vary(rng, ty.content, cfg)
        return Lst(c) if r < 0.3 else Reg(c, ty.size if r < 0.8 else rng.randint(1, 3))
    if k == "rec":
        cs = [vary(rng, c, cfg) if rng.random() < 0.4 else c for c in ty.contents]
        return Rec(ty.fields, cs, ty.name)
    return ty


def related(rng, ty, cfg):
    r = rng.random()
    if r < 0.4:
        return ty
    t = vary(rng, ty, cfg)
    if r < 0.6 and t.kind not in ("opt", "uni", "unk"):
        return Opt(t)
    if r < 0.7:
        return rand_type(rng, cfg)
    return t


def prims(ty, out):
    if ty.kind == "prim":
        out.add(ty.dtype)
    for c in ([ty.content] if ty.content is not None else []) + list(ty.contents or []):
        prims(c, out)
    return out


def lossy(tys):
    d = set()
    for t in tys:
        prims(t, d)
    if len(d) < 2:
        return 0
    if "complex64" in d or "float32" in d and "complex128" in d:
        return 1e-6
    return 1e-15 if d & {"int64", "uint64", "complex128"} else 0


def nest(rng, ety, shape, cfg, d):
    if d == 0:
        return [rand_value(rng, ety, cfg) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 5]))]
    return [nest(rng, ety, s, cfg, d - 1) for s in shape]


def rand_shape(rng, d):
    return None if d == 0 else [rand_shape(rng, d - 1) for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))]


def run_case(rng, rec, i):
    cfg = CFG.but(unions=rng.random() < 0.15, records=rng.random() < 0.35, strings=rng.random() < 0.4, prims=WIDE if rng.random() < 0.2 else CFG.prims)
    k = rng.choice([1, 2, 2, 2, 2, 3, 3, 4, 5])
    axis = 0 if rng.random() < 0.65 else rng.choice([1, 1, 1, 2])
    tys, cols = [], []
    if axis == 0:
        ty = rand_type(rng, cfg)
        for j in range(k):
            t = ty if j == 0 else related(rng, ty, cfg)
            tys.append(t)
            cols.append(rand_values(rng, t, cfg))

        def model():
            return [x for t, c in zip(tys, cols) for x in stripped(t, c)]
    else:
        shape = rand_shape(rng, axis)
        ety = rand_type(rng, cfg, 2)
        for j in range(k):
            t = ety if j == 0 else related(rng, ety, cfg)
            c = nest(rng, t, shape, cfg, axis)
            for _ in range(axis):
                t = Lst(t)
            tys.append(t)
            cols.append(c)

        def model():
            def go(ts, vs, ax):
                if ax == 0:
                    return [x for t, v in zip(ts, vs) for x in stripped(t.content, v)]
                return [go([t.content for t in ts], x, ax - 1) for x in zip(*vs)]
            return go([Lst(t) for t in tys], cols, axis)
    lays = [make_top(t, c, rng, cfg) if axis == 0 else make(t, c, rng, cfg) for t, c in zip(tys, cols)]
    arrs = [ak.Array(x) for x in lays]
    zero = any(has_zero(t) for t in tys)
    what = "of %s" % [(t, short(stripped(t, c), 300)) for t, c in zip(tys, cols)]
    tol = lossy(tys)
    comp = lambda a, b: same(a, b, True) or bool(tol) and close(a, b, tol)
    merge, mergebool = rng.random() < 0.8, rng.random() < 0.7
    if axis and (any(above(t, axis) & {"opt", "rec", "uni"} for t in tys)):
        return
    if zero and axis:
        return
    nm = "concatenate axis=%d" % axis
    ax = axis
    ds = set(purelist_depths(t) for t in tys)
    if len(ds) == 1 and not any(has_kind(t, ("rec", "uni")) for t in tys) and rng.random() < 0.2:
        lo, hi = ds.pop()
        if lo == hi and axis < hi:
            ax = axis - hi
    rec.sig(nm, merge, mergebool, str([describe(x) for x in lays]))
    r = expect(rec, nm, "axis=%d merge=%r mergebool=%r %s" % (ax, merge, mergebool, what), model, lambda: ak.concatenate(arrs, axis=ax, merge=merge, mergebool=mergebool), lays, cmp=comp)
    if isinstance(r, ak.Array) and axis == 0 and len(r) != sum(map(len, cols)):
        raise Violation(nm + ": length", what)
    rec.sample(what)
    if k < 2 or axis:
        return
    cont = [x.toContent() if isinstance(x, ak.partition.PartitionedArray) else x for x in lays]
    a, b = cont[0], cont[1]

    def two():
        return stripped(tys[0], cols[0]) + stripped(tys[1], cols[1])
    ok = attempt(lambda: a.mergeable(b, mergebool=mergebool))
    if ok[0] == "ok" and ok[1]:
        expect(rec, "merge", what, two, lambda: a.merge(b), lays, cmp=comp)
        if all(x.mergeable(y, mergebool=mergebool) for x in cont for y in cont):
            expect(rec, "mergemany", what, model, lambda: a.mergemany(cont[1:]), lays, cmp=comp)
    else:
        rec.count("not-mergeable")
    u = attempt(lambda: a.merge_as_union(b))
    if u[0] == "ok":
        expect(rec, "merge_as_union", what, two, lambda: u[1], lays, cmp=comp)
        if rng.random() < 0.7:
            expect(rec, "simplify", what, two, lambda: u[1].simplify(merge=merge, mergebool=mergebool) if hasattr(u[1], "simplify") else u[1], lays, cmp=comp)
