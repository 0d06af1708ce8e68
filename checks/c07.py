"""C07 cartesian products and combinations against itertools, list by list."""
import itertools
from vlib.ops import *
from vlib.model import *
from checks.c03 import has_zero

META = {
    "property": "C07",
    "technique": "runtime monitor: reference model (itertools, list by list) compared with the library's result on random layouts; the positions returned by the arg- versions are applied to the array and compared with the tuples (ASan/UBSan build)",
    "cases": {"quick": 24000, "thorough": 600000},
    "rule": "a case is either a random nested array with 2 combinations calls, or 2-4 arrays with a common outer structure with 2 cartesian calls (any axis, nesting, field names, names of records); distinct = (function, parameters, layout signature); non-trivial = the model predicted a value or an exception",
    "assumptions": ["cartesian is compared for arrays whose dimensions down to the axis are variable-length lists without missing lists (how regular and missing lists broadcast is C06)"],
}
CFG = Cfg(empty=False, biglen=0.01, maxlen=5) if "maxlen" in Cfg().__dict__ else Cfg(empty=False, biglen=0.01)


def tup(names, vs):
    return tuple(vs) if names is None else dict(zip(names, vs))


def m_comb(ty, vals, ax, n, rep, names, arg):
    f = itertools.combinations_with_replacement if rep else itertools.combinations
    if n < 1:
        raise ModelError("n must be positive")

    def g(t, v):
        s = list(range(len(v))) if arg else stripped(t.content, v)
        return [tup(names, c) for c in f(s, n)]
    if ax == 0:
        return g(Lst(ty), vals)
    if ax >= purelist_depths(ty)[0] or has_kind(ty, ("uni",)):
        raise Ambiguous()
    if has_kind(ty, ("rec",)) and above(ty, ax) & {"rec"} and arg:
        raise Ambiguous()
    return over(ty, vals, ax, g)


def product(lists, names, nested):
    def build(i, prefix):
        if i == len(lists) - 1:
            return [tup(names, prefix + [x]) for x in lists[i]]
        out = [build(i + 1, prefix + [x]) for x in lists[i]]
        if i not in nested:
            out = [y for x in out for y in x]
        return out
    return build(0, [])


def m_cart(tys, cols, ax, names, nested, arg):
    def s(t, v):
        return list(range(len(v))) if arg else stripped(t, v)
    if ax == 0:
        if any(i in nested and i + 1 < len(tys) - 1 and i + 1 not in nested for i in range(len(tys) - 2)):
            raise Ambiguous()  # documented (and tested) to group by len(arrays[i + 1]) elements
        return product([s(t, c) for t, c in zip(tys, cols)], names, nested)

    def go(ts, vs, axis):
        if axis == 1:
            return product([s(t.content, v) for t, v in zip(ts, vs)], names, nested)
        return [go([t.content for t in ts], x, axis - 1) for x in zip(*vs)]
    return [go(tys, x, ax) for x in zip(*cols)]


def size_of(v):
    return 1 + sum(size_of(x) for x in v) if isinstance(v, list) else 1


def longest(ty, v):
    if v is None:
        return 0
    k = ty.kind
    if k == "opt":
        return longest(ty.content, v)
    if k in ("list", "reg"):
        return max([len(v)] + [longest(ty.content, x) for x in v])
    if k == "rec":
        return max([0] + [longest(c, x) for c, x in zip(ty.contents, v)])
    if k == "uni":
        return longest(ty.contents[v.tag], v.v)
    return 0


def nest(rng, ety, shape, cfg, d):
    """Values whose outer d levels have the given nested lengths; the innermost lists are free."""
    if d == 0:
        return [rand_value(rng, ety, cfg) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 3, 4]))]
    return [nest(rng, ety, s, cfg, d - 1) for s in shape]


def rand_shape(rng, d):
    if d == 0:
        return None
    return [rand_shape(rng, d - 1) for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))]


def run_case(rng, rec, i):
    cfg = CFG.but(unions=rng.random() < 0.1, records=rng.random() < 0.3, strings=rng.random() < 0.4)
    if rng.random() < 0.5:
        ty = rand_type(rng, cfg)
        vals = rand_values(rng, ty, cfg)
        if longest(Lst(ty), vals) > 12:
            vals = vals[:6]
        lay = make_top(ty, vals, rng, cfg)
        arr = ak.Array(lay)
        big = longest(Lst(ty), vals) > 12
        for _ in range(2):
            n, rep, arg = rng.choice([1, 2, 2, 2, 3, 3, 4, 5, 0] if not big else [1, 2]), rng.random() < 0.5, rng.random() < 0.3
            axis, ax = pick_axis(rng, ty)
            if n > 3 and longest(Lst(ty), vals) > 8:
                n = 2
            names = ["a", "b", "c", "d", "e"][:n] if rng.random() < 0.3 else None
            nm = "argcombinations" if arg else "combinations"
            if arg:
                axis = ax
            if has_kind(ty, ("str", "bytes")) and ax >= purelist_depths(ty)[0]:
                continue
            kw = {"replacement": rep, "axis": axis}
            if names:
                kw["fields"] = names
            wn = rng.random() < 0.2
            if wn:
                kw["with_name"] = "Combo"
            what = "ak.%s(%d, %r) of %s values %s" % (nm, n, kw, ty, short(stripped(ty, vals)))
            r = expect(rec, nm, what, lambda: m_comb(ty, vals, ax, n, rep, names, arg), lambda: getattr(ak, nm)(arr, n, **kw), [lay])
            rec.sig(nm, n, str(sorted(kw.items(), key=str)), describe(lay))
            rec.sample(what)
            if isinstance(r, ak.Array) and wn and ax == 0 and r.layout.purelist_parameter("__record__") != "Combo":
                raise Violation(nm + ": record name lost", what)
            if isinstance(r, ak.Array) and arg and ax == 1 and ty.kind == "list" and n >= 1 and not isinstance(lay, ak.partition.PartitionedArray):
                full = ak.combinations(arr, n, replacement=rep, axis=1)
                for k in range(n):
                    expect(rec, "index with argcombinations", what, lambda: decode(full[str(k)]), lambda: arr[r[names[k] if names else str(k)]], [lay])
        return
    k = rng.choice([2, 2, 2, 3, 3, 4, 1])
    ax = rng.choice([0, 1, 1, 1, 1, 2, 2, 3])
    shape = rand_shape(rng, ax)
    tys, cols = [], []
    for _ in range(k):
        ety = rand_type(rng, cfg.but(maxdepth=2) if "maxdepth" in cfg.__dict__ else cfg, 2) if rng.random() < 0.5 else Prim(rng.choice(["int64", "float64"]))
        t = ety
        for _ in range(ax):
            t = Lst(t)
        if has_zero(ety):
            ety, t = Prim("int64"), Prim("int64")
            for _ in range(ax):
                t = Lst(t)
        tys.append(t)
        cols.append(nest(rng, ety, shape, cfg, ax))
    lays = [make(t, c, rng, cfg) for t, c in zip(tys, cols)]
    arrs = [ak.Array(x) for x in lays]
    for _ in range(2):
        names = ["a", "b", "c", "d"][:k] if rng.random() < 0.4 else None
        r = rng.random()
        nested = [] if r < 0.5 else list(range(k - 1)) if r < 0.7 else sorted(rng.sample(range(k - 1), rng.randint(0, k - 1))) if k > 1 else []
        arg = rng.random() < 0.3
        nm = "argcartesian" if arg else "cartesian"
        if names is None:
            na = True if nested == list(range(k - 1)) and nested and rng.random() < 0.5 else (None if not nested else nested)
        else:
            na = True if nested == list(range(k - 1)) and nested and rng.random() < 0.5 else (None if not nested else [names[x] for x in nested])
        what = "ak.%s axis=%d nested=%r names=%r of %s" % (nm, ax, na, names, [(t, short(stripped(t, c))) for t, c in zip(tys, cols)])
        if has_kind(Rec(None, tys), ("uni", "opt", "rec", "reg", "str", "bytes")):
            rec.count("cartesian of structured elements")
        r = expect(rec, nm, what, lambda: m_cart(tys, cols, ax, names, nested, arg), lambda: getattr(ak, nm)(arrs if names is None else dict(zip(names, arrs)), axis=ax, nested=na), lays)
        rec.sig(nm, k, ax, str(na), str([describe(x) for x in lays]))
        rec.sample(what)
        if isinstance(r, ak.Array) and arg and ax == 1 and not nested:
            full = ak.cartesian(arrs, axis=1)
            for j in range(k):
                expect(rec, "index with argcartesian", what, lambda: decode(full[str(j)]), lambda: arrs[j][r[names[j] if names else str(j)]], lays)
