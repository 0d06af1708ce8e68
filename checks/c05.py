"""C05 sort and argsort: every group is re-sorted from the plain values."""
from vlib.common import *

META = {
    "property": "C05",
    "cases": {"quick": 20000, "thorough": 500000},
    "rule": "a case is one random nested array of numbers, booleans or strings in a random layout, sorted/argsorted with 4 random (axis, ascending, stable) choices; distinct = (function, axis, flags, layout signature); non-trivial = a group was compared",
    "assumptions": ["missing values come last in either direction", "columns are sorted in place: a sort along an outer axis keeps the list lengths, and argsort counts positions among the non-missing values of the column (as tests/test_0074 fixes it)"],
}
CFG = Cfg(bytestrings=False, records=False, unions=False, extremes=0.03)


def leaf(ty):
    while ty.content is not None:
        ty = ty.content
    return ty


def skey(v):
    return v.encode("utf-8") if isinstance(v, str) else v


def group(items, args):
    """items [(pos, value)]: what the group's slots hold afterwards."""
    present = list(enumerate(v for p, v in items if v is not None))
    out = sorted(present, key=lambda pv: skey(pv[1]), reverse=False)
    if not args["ascending"]:
        # stable in the other direction: equal elements keep their order
        out = sorted(present, key=lambda pv: skey(pv[1]), reverse=True)
    missing = [(p, None) for p, v in items if v is None]
    return out, missing


def combine(ty, items, args):
    """items: [(pos, value)] along the axis -> list of new values, one per item."""
    if ty.kind == "opt" and ty.content.kind in ("prim", "str"):
        out, missing = group(items, args)
        if args["arg"]:
            return [p for p, _ in out] + [args["missing"] for _ in missing]
        return [v for _, v in out] + [None] * len(missing)
    if ty.kind == "opt":
        if any(v is None for _, v in items):
            raise Ambiguous()
        return combine(ty.content, items, args)
    if ty.kind in ("prim", "str"):
        out, _ = group(items, args)
        return [p if args["arg"] else v for p, v in out]
    n = max([len(v) for _, v in items] or [0])
    cols = []
    for j in range(n):
        cols.append(iter(combine(ty.content, list(enumerate(v[j] for p, v in items if j < len(v))), args)))
    return [[next(cols[j]) for j in range(len(v))] for _, v in items]


def model(ty, vals, axis, args):
    if axis == 0:
        if leaf(ty).kind == "str" and (ty.content if ty.kind == "opt" else ty).kind != "str":
            raise Ambiguous()
        return combine(ty, list(enumerate(vals)), args)
    t = ty.content if ty.kind == "opt" else ty
    return [None if v is None else model(t.content, v, axis - 1, args) for v in vals]


def run_case(rng, rec, i):
    cfg = CFG.but(strings=rng.random() < 0.3)
    ty = rand_type(rng, cfg)
    vals = rand_values(rng, ty, cfg)
    lay = make_top(ty, vals, rng, cfg)
    arr = ak.Array(lay)
    depth = purelist_depths(ty)[0]
    sig = describe(lay)
    for _ in range(4):
        arg = rng.random() < 0.5
        axis = rng.choice(list(range(-depth, depth)) + [-1] * depth)
        asc, stable = rng.random() < 0.5, rng.random() < 0.6
        args = {"arg": arg, "ascending": asc, "stable": stable, "missing": None}
        name = "argsort" if arg else "sort"
        ax = axis if axis >= 0 else depth + axis
        inner = "" if ax == depth - 1 else " outer axis"
        what = "ak.%s(%s values %s, axis=%r, ascending=%r, stable=%r)" % (name, ty, short([strip(ty, v) for v in vals]), axis, asc, stable)
        want = []

        def mod():
            want.append(model(ty, vals, ax, args))
            return want[0]
        fn = getattr(ak, name)
        if arg and not stable:
            # any permutation that sorts: compare the values the positions select
            cmp = lambda a, b: perm_ok(ty, vals, ax, asc, b)
        else:
            cmp = None
        expect(rec, name + inner, what, mod, lambda: fn(arr, axis=axis, ascending=asc, stable=stable), [lay], cmp=cmp)
        rec.sig(name, axis, asc, stable, sig)
        rec.sample(what)


def perm_ok(ty, vals, ax, asc, got):
    """got (positions) must select, group by group, exactly what a sort gives."""
    def comb(t, items, res):
        if t.kind == "opt" and t.content.kind not in ("prim", "str"):
            t = t.content
        if t.kind in ("prim", "str", "opt"):
            out, missing = group(items, {"ascending": asc})
            if len(res) != len(items):
                return False
            by = dict(enumerate(v for p, v in items if v is not None))
            head, tail = res[: len(out)], res[len(out):]
            if sorted(x if x is not None else -1 for x in head) != sorted(p for p, _ in out):
                return False
            if [by[p] for p in head] != [v for _, v in out]:
                return False
            return all(x is None for x in tail)
        n = max([len(v) for _, v in items] or [0])
        if [len(v) for _, v in items] != [len(r) for r in res]:
            return False
        return all(comb(t.content, list(enumerate(v[j] for p, v in items if j < len(v))), [r[j] for r in res if j < len(r)]) for j in range(n))

    def walk(t, v, res, axis):
        if axis == 0:
            return len(v) == len(res) and comb(t, list(enumerate(v)), res)
        t = t.content if t.kind == "opt" else t
        if len(v) != len(res):
            return False
        return all((r is None) if x is None else (r is not None and walk(t.content, x, r, axis - 1)) for x, r in zip(v, res))
    return walk(ty, vals, got, ax)
