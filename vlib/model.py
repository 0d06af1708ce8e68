"""Reference models over typed plain values, shared by the behavioural monitors."""
from vlib.common import *


def unopt(ty):
    return ty.content if ty.kind == "opt" else ty


def keys_of(ty):
    return list(ty.fields) if ty.fields is not None else None


def rec_value(ty, vs):
    """A record of already stripped values."""
    if ty.fields is None:
        return tuple(vs)
    return dict(zip(ty.fields, vs))


def depths(ty):
    return purelist_depths(ty)


def above(ty, axis):
    """Kinds met strictly above the lists at `axis` (axis >= 1), i.e. that the operation passes through."""
    out = set()
    t = ty
    k = t.kind
    if k in ("list", "reg"):
        if axis > 1:
            out |= above(t.content, axis - 1)
            out.add(k)
        return out
    out.add(k)
    if k == "opt":
        return out | above(t.content, axis)
    for c in t.contents or []:
        out |= above(c, axis)
    return out


def lists_at(ty, v, axis, g):
    """Apply g(list type, list) to every list at `axis` within one element v of type ty (axis >= 1)."""
    k = ty.kind
    if k == "opt":
        return None if v is None else lists_at(ty.content, v, axis, g)
    if k == "rec":
        return rec_value(ty, [lists_at(c, x, axis, g) for c, x in zip(ty.contents, v)])
    if k == "uni":
        return lists_at(ty.contents[v.tag], v.v, axis, g)
    if k in ("list", "reg"):
        if axis == 1:
            return g(ty, v)
        return [lists_at(ty.content, x, axis - 1, g) for x in v]
    raise ModelError("axis deeper than the data")


def check_axis(ty, axis, vals=True):
    """Raises unless every branch has lists at axis (Ambiguous when only some have, or when there are characters below or nothing at all)."""
    lo, hi = purelist_depths(ty)
    if axis >= hi:
        if has_kind(ty, ("str", "bytes", "reg")) or not vals:
            raise Ambiguous()
        raise ModelError("axis deeper than the data")
    if axis >= lo:
        raise Ambiguous()


def over(ty, vals, axis, g):
    """over lists at axis >= 1 of the whole array."""
    check_axis(ty, axis, vals)
    return [lists_at(ty, v, axis, g) for v in vals]


def stripped(ty, vals):
    return [strip(ty, v) for v in vals]


def pick_axis(rng, ty, deep=0.04):
    """A random axis and its non-negative meaning (negative only when the depth is unique)."""
    lo, hi = purelist_depths(ty)
    if rng.random() < deep:
        a = rng.choice([hi, hi + 1])
        return a, a
    a = rng.randint(0, hi - 1)
    if lo == hi and not has_kind(ty, ("rec", "uni")) and rng.random() < 0.4:
        return a - hi, a
    return a, a
