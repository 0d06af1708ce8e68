"""C09 missing values: is_none, fill_none, pad_none, mask, singletons, firsts."""
from vlib.ops import *
from vlib.model import *
from checks.c03 import opt_levels, has_zero

META = {
    "property": "C09",
    "technique": "runtime monitor: reference model of each missing-value operation, evaluated on the plain values, compared with the library's result on random layouts and option encodings (ASan/UBSan build)",
    "cases": {"quick": 32000, "thorough": 800000},
    "rule": "a case is one random nested array with missing values in random encodings (bit/byte masks, option indexes, all present) and 4 calls; distinct = (function, axis, layout signature); non-trivial = the model predicted a value or an exception",
    "assumptions": ["fill_none is compared where one option level is present (finding C03-fill-none-nested)", "singletons wraps the outermost option level",
                    "numbers may be promoted when a fill value of another number type is inserted"],
}
CFG = Cfg(empty=False, options=0.5, biglen=0.03) if "options" in Cfg().__dict__ else Cfg(empty=False, biglen=0.03)


def m_is_none(ty, vals, ax):
    if ax == 0:
        if unopt(ty).kind == "uni":
            raise Ambiguous()
        return [v is None for v in vals]
    if ax >= purelist_depths(ty)[0] or above(ty, ax) & {"rec", "uni"}:
        raise Ambiguous()

    def g(t, v):
        if unopt(t.content).kind == "uni":
            raise Ambiguous()
        return [x is None for x in v]
    return over(ty, vals, ax, g)


def fill(ty, v, value):
    if v is None:
        return value
    k = ty.kind
    if k == "opt":
        return fill(ty.content, v, value)
    if k in ("list", "reg"):
        return [fill(ty.content, x, value) for x in v]
    if k == "rec":
        return rec_value(ty, [fill(c, x, value) for c, x in zip(ty.contents, v)])
    if k == "uni":
        return fill(ty.contents[v.tag], v.v, value)
    return strip(ty, v)


def pad(xs, n, clip):
    if clip:
        xs = xs[:n]
    return xs + [None] * (n - len(xs))


def m_pad(ty, vals, ax, n, clip):
    if ax == 0:
        if has_kind(ty, ("uni",)):
            raise Ambiguous()
        return pad(stripped(ty, vals), n, clip)
    if has_kind(ty, ("uni",)):
        raise Ambiguous()
    return over(ty, vals, ax, lambda t, v: pad(stripped(t.content, v), n, clip))


def sing(ty, v):
    k = ty.kind
    if k == "opt":
        return [] if v is None else [strip(ty.content, v)]
    if k in ("list", "reg"):
        return [sing(ty.content, x) for x in v]
    if k == "rec":
        return rec_value(ty, [sing(c, x) for c, x in zip(ty.contents, v)])
    if k == "uni":
        raise Ambiguous()
    return strip(ty, v)


def m_firsts(ty, vals, ax):
    if ax == 0:
        return strip(ty, vals[0]) if vals else None
    if ax >= purelist_depths(ty)[0] or has_kind(ty, ("rec", "uni")) and above(ty, ax) & {"rec", "uni"}:
        raise Ambiguous()
    return over(ty, vals, ax, lambda t, v: strip(t.content, v[0]) if len(v) else None)


def rand_mask(rng, ty, v, d):
    """A nested mask down to d list levels, and what it makes of v."""
    if d == 0:
        return rng.random() < 0.6
    t = unopt(ty)
    if v is None:
        return [rand_mask(rng, t.content, None, d - 1) for _ in range(t.size if t.kind == "reg" else rng.randint(0, 3))]
    return [rand_mask(rng, t.content, x, d - 1) for x in v]


def masked(ty, v, m, d, vw):
    if d == 0:
        return strip(ty, v) if m == vw else None
    if v is None:
        return None
    t = unopt(ty)
    return [masked(t.content, x, y, d - 1, vw) for x, y in zip(v, m)]


def mask_ty(ty, d):
    if d == 0:
        return Prim("bool")
    t = unopt(ty)
    c = mask_ty(t.content, d - 1)
    return Reg(c, t.size) if t.kind == "reg" else Lst(c)


def run_case(rng, rec, i):
    cfg = CFG.but(unions=rng.random() < 0.12, records=rng.random() < 0.3, strings=rng.random() < 0.4)
    ty = rand_type(rng, cfg)
    if rng.random() < 0.5 and not has_kind(ty, ("opt",)) and ty.kind != "uni":
        ty = Opt(ty)
    elif rng.random() < 0.5 and ty.kind == "list" and ty.content.kind not in ("opt", "uni"):
        ty = Lst(Opt(ty.content))
    vals = rand_values(rng, ty, cfg)
    lay = make_top(ty, vals, rng, cfg)
    arr = ak.Array(lay)
    sig = describe(lay)
    data = "%s values %s" % (ty, short(stripped(ty, vals)))
    zero = has_zero(ty)
    for _ in range(4):
        name = rng.choice(["is_none", "is_none", "fill_none", "fill_none", "pad_none", "pad_none", "pad_none", "mask", "mask", "singletons", "firsts", "inverse"])
        axis, ax = pick_axis(rng, ty)
        rec.sig(name, axis, sig)
        what = "ak.%s axis=%r of %s" % (name, axis, data)
        if name == "is_none":
            if axis < 0 and has_kind(ty, ("rec", "uni")):
                continue
            expect(rec, name, what, lambda: m_is_none(ty, vals, ax), lambda: ak.is_none(arr, axis=axis), [lay])
        elif name == "fill_none":
            if opt_levels(ty) > 1:
                continue
            value = rng.choice([0, 5, 2.5, True, "s", -1, [1, 2], [], np.float32(1.5), np.int8(-7)])
            expect(rec, name, "value %r %s" % (value, what), lambda: [fill(ty, v, value.item() if isinstance(value, np.generic) else value) for v in vals], lambda: ak.fill_none(arr, value), [lay],
                   cmp=lambda a, b: same(a, b, True) or (isinstance(value, (float, np.floating)) or 'uint64' in repr(ty)) and close(a, b, 1e-6))
        elif name == "pad_none":
            n, clip = rng.choice([0, 1, 2, 3, 5]), rng.random() < 0.5
            expect(rec, "pad_none clip" if clip else "pad_none", "target %d clip %r %s" % (n, clip, what), lambda: m_pad(ty, vals, ax, n, clip), lambda: ak.pad_none(arr, n, axis=axis, clip=clip), [lay])
        elif name == "mask":
            t, d = ty, 0
            while unopt(t).kind in ("list", "reg") and rng.random() < 0.6:
                t, d = unopt(t).content, d + 1
            m = [rand_mask(rng, ty, v, d) for v in vals]
            vw = rng.random() < 0.6
            mlay = make(Lst(mask_ty(ty, d)) if 0 else mask_ty(ty, d), m, rng, cfg)
            if zero or has_kind(mask_ty(ty, d), ("reg",)) and has_kind(ty, ("opt",)):
                continue    # regular dimensions below an option align differently (C06)
            how = rng.random() < 0.7 or not vw
            expect(rec, name, "mask %s valid_when=%r %s" % (short(m), vw, what), lambda: [masked(ty, v, x, d, vw) for v, x in zip(vals, m)],
                   (lambda: ak.mask(arr, mlay, valid_when=vw)) if how else (lambda: arr.mask[ak.Array(mlay)]), [lay, mlay])
        elif name == "singletons":
            expect(rec, name, what, lambda: [sing(ty, v) for v in vals], lambda: ak.singletons(arr), [lay])
        elif name == "firsts":
            if zero or has_kind(ty, ("str", "bytes")) and ax >= purelist_depths(ty)[0]:
                continue
            expect(rec, name, what, lambda: m_firsts(ty, vals, ax), lambda: ak.firsts(arr, axis=axis), [lay])
        elif name == "inverse":
            if ty.kind != "opt" or ty.content.kind in ("rec", "uni"):
                continue
            expect(rec, "firsts(singletons)", what, lambda: stripped(ty, vals), lambda: ak.firsts(ak.singletons(arr)), [lay])
        rec.sample(what)
