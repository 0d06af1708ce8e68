"""C03 results do not depend on the layout: the same operation on the plain canonical layout and on hostile layouts of the same values."""
from vlib.ops import *

META = {
    "property": "C03",
    "technique": "runtime monitor: differential oracle (canonical layout vs hostile layouts of the same values) over randomised operations on the ASan/UBSan build, plus direct comparison of iteration, access, to_list and packed with the generated values",
    "cases": {"quick": 9000, "thorough": 400000},
    "rule": "a case is one random typed value in its plain canonical layout and in two random hostile layouts, put through 3 random operations each, and read by iteration, element access, to_list and packing; distinct = (operation, layout signature); non-trivial = at least one operation returned data from both layouts",
    "assumptions": ["operations documented as unsupported for a node type (FIXME, not implemented) may raise for one layout and not another",
                    "whether concatenating booleans with numbers promotes the booleans is not defined: True equals 1 there",
                    "reductions of floating-point numbers may differ in the last digits"],
}
CFG = Cfg(empty=True, nan=True, partitioned=0.0, biglen=0.04)

# operations with an axis: what they do with records and strings met on the way to that axis depends on
# the node type (finding C03-axis-records); they are compared for the other types only
AXIS = set(REDUCERS) | {"mean", "var", "softmax", "sort", "argsort", "num", "size", "local_index", "unflatten", "to_regular", "from_regular",
                        "pad_none", "is_none", "firsts", "combinations", "argcombinations", "cartesian", "argcartesian", "flatten"}
# exceptions of one layout that are open findings, by call site
KNOWN_RAISES = re.compile("is only expected to return RegularArray or ListOffsetArray64")


LOOSE = ("concatenate", "where", "fill_none")     # numbers may or may not have been promoted to a common type


def comparable(op, ty):
    nm, ax = op.name, op.axis
    if nm in AXIS and ax is not None and (branches(ty, ax) or has_kind(ty, ("str", "bytes"))):
        return False
    if nm in AXIS and ax is None and nm != "flatten" and has_kind(ty, ("str", "bytes")):
        return False
    if has_zero(ty) and nm in ("unflatten", "cartesian", "argcartesian", "broadcast_arrays", "arrow", "isclose", "where", "to_numpy", "pickle") + ("zip",) or has_zero(ty) and nm.startswith("ufunc"):
        return False        # finding C03-zero-size
    if op.via == "concatenate1" and has_kind(ty, ("str", "bytes", "opt")):
        return False        # what becomes of a missing list or of characters is not documented
    if nm == "to_numpy" and has_kind(ty, ("rec",)) and has_kind(ty, ("opt",)) or nm == "arrow" and opt_rec(ty):
        return False        # findings C15-masked-records, C14-option-records
    if nm in ("cartesian", "argcartesian") and has_kind(ty, ("reg",)) or nm == "broadcast_arrays" and has_kind(ty, ("str", "bytes")):
        return False        # regular dimensions align differently as NumpyArray; broadcasting into characters is not documented
    if nm == "run_lengths" and has_kind(ty, ("rec", "uni", "opt")):
        return False        # a record whose fields would get different lengths has no result
    if nm == "ptp" or nm == "arrow" and has_kind(ty, ("uni",)) or nm == "fill_none" and opt_levels(ty) > 1:
        return False        # findings C03-ptp, C14-*, C03-fill-none-nested
    if nm in ("cartesian", "argcartesian", "mean", "var", "softmax", "isclose") and has_kind(ty, ("opt", "uni", "rec")):
        return False        # regular dimensions below an option align to the left or to the right depending on the nodes
    if nm == "to_regular" and has_kind(ty, ("opt",)):
        return False        # whether the lists hidden by a mask have to be regular is not documented
    if nm == "size" and has_kind(ty, ("str", "bytes")):
        return False
    if has_kind(ty, ("uni",)) and (nm == "to_pandas" or nm.startswith("ufunc") and has_kind(ty, ("str", "bytes"))):
        return False        # what a data frame of a union, or comparing characters with strings, means is not documented
    return True


def opt_rec(ty):
    if ty.kind == "opt" and ty.content.kind == "rec":
        return True
    return (ty.content is not None and opt_rec(ty.content)) or any(opt_rec(c) for c in (ty.contents or []))


def opt_levels(ty):
    n = max([opt_levels(c) for c in ([ty.content] if ty.content is not None else []) + list(ty.contents or [])] or [0])
    return n + (ty.kind == "opt")


def has_zero(ty):
    if ty.kind == "reg" and ty.size == 0:
        return True
    return (ty.content is not None and has_zero(ty.content)) or any(has_zero(c) for c in (ty.contents or []))


def branches(ty, ax):
    """A record or union is met at or above axis ax."""
    if ax < 0:
        return has_kind(ty, ("rec", "uni"))
    d = 0
    while True:
        if ty.kind in ("rec", "uni"):
            return d <= ax
        if ty.kind in ("list", "reg"):
            d += 1
        elif ty.kind != "opt":
            return False
        ty = ty.content



def run_case(rng, rec, i):
    cfg = CFG
    ty = rand_type(rng, cfg)
    vals = rand_values(rng, ty, cfg)
    base = ak.Array(make_simple(ty, vals))
    want = [strip(ty, v) for v in vals]
    hosts = [ak.Array(make_top(ty, vals, rng, cfg)) for _ in range(2)]
    for h in hosts:
        # one and the same data by every way of reading it
        n = len(vals)
        views = [("decode", lambda: plain(h)), ("to_list", lambda: ak.to_list(h)), ("iterate", lambda: [plain(x) for x in h]),
                 ("at", lambda: [plain(h[k]) for k in range(n)]), ("at-negative", lambda: [plain(h[k - n]) for k in range(n)]),
                 ("packed", lambda: plain(ak.packed(h))), ("reversed", lambda: plain(h[::-1])[::-1])]
        for nm, fn in [views[0]] + rng.sample(views[1:], 3):
            rec.step("%s of %s\n%s" % (nm, short(want), show_layout(h.layout, 3000)))
            got = attempt(fn)
            if got[0] == "err":
                raise Violation("read %s: raised" % nm, "%s\n%s" % (got[1], show_layout(h.layout)))
            if not same(want, got[1]):
                raise Violation("read %s: wrong" % nm, "expected %s\n     got %s\n%s" % (short(want), short(got[1]), show_layout(h.layout)))
            rec.count("read:" + nm)
    for _ in range(3):
        op = rand_op(rng, ty, vals, cfg)
        key = op.name
        if not comparable(op, ty) or len(vals) == 0 and (key.startswith("ufunc") or key == "broadcast_arrays"):
            rec.count("not-comparable")
            continue
        a = outcome(op, [base] + [ak.Array(make_simple(t, v)) for t, v in op.extra])
        if a[0] == "ok":
            try:
                a = ("ok", plain(a[1]))
            except Exception as e:
                raise Violation(key + ": canonical result cannot be read", "%s\n%s" % (op.what, e))
        for h in hosts:
            extra = [ak.Array(make_top(t, v, rng, cfg)) for t, v in op.extra]
            rec.step("%s %s on\n%s" % (key, op.what[:300], show_layout(h.layout, 3000)))
            b = outcome(op, [h] + extra)
            rec.count("op:" + key)
            rec.sig(key, describe(h.layout))

            def witness():
                return "%s %s\nvalues %r: %s\ncanonical: %s\n  hostile: %s\n%s\nextra: %s" % (
                    key, op.what, ty, short(want), short(a[1]), short(b[1]), show_layout(h.layout), [show_layout(e.layout, 1500) for e in extra])
            if a[0] == "err" and b[0] == "err":
                rec.count("both-raised")
                continue
            if a[0] != b[0]:
                e = a[1] if a[0] == "err" else b[1]
                if UNSUPPORTED.search(str(e) + type(e).__name__) or KNOWN_RAISES.search(str(e)):
                    rec.count("unsupported")
                    continue
                if b[0] == "ok":
                    try:
                        b = ("ok", plain(b[1]))
                    except Exception:
                        pass
                raise Violation("%s: only the %s layout raises" % (key, "canonical" if a[0] == "err" else "hostile"), witness())
            try:
                b = ("ok", plain(b[1]))
            except Exception as e:
                raise Violation(key + ": hostile result cannot be read", "%s\n%s" % (e, witness()))
            if not (close(a[1], b[1], op.tol) if op.tol else same(a[1], b[1], loose=key in LOOSE) or key in LOOSE and close(a[1], b[1], 1e-12)):
                raise Violation(key + ": results differ", witness())
            rec.count("agreed")
    rec.sample("%s: %s" % (op.name, short(want, 200)))
