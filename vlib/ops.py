"""Catalogue of public operations, as closures that can be applied to any layout of
the same data. Used by the differential monitors (C01, C03, C16, C17, C21-C23)."""
import pickle
from vlib.common import *


class Op(object):
    __slots__ = ("name", "fn", "what", "extra", "tol", "axis", "via")

    def __init__(self, name, fn, what="", extra=(), tol=0.0):
        # extra: [(type, values)] of further array arguments
        self.name, self.fn, self.what, self.extra, self.tol = name, fn, what, extra, tol
        self.axis = None    # the axis argument, where there is one
        self.via = name     # name in NAMES


def axis_of(rng, ty):
    lo, hi = purelist_depths(ty)
    r = rng.random()
    if r < 0.45:
        return -1
    if r < 0.6:
        return rng.randint(-hi, -1)
    if r < 0.97:
        return rng.randint(0, max(0, hi - 1))
    return rng.choice([hi, hi + 1, -hi - 1])


REDUCERS = ["count", "count_nonzero", "sum", "prod", "any", "all", "min", "max", "argmin", "argmax", "ptp"]
UFUNC1 = ["negative", "absolute", "sqrt", "isfinite", "sign", "logical_not", "floor", "square"]
UFUNC2 = ["add", "subtract", "multiply", "equal", "less", "maximum", "logical_and", "not_equal", "greater_equal", "true_divide"]


def fields_of(ty):
    k = ty.kind
    if k in ("list", "reg", "opt"):
        return fields_of(ty.content)
    if k == "rec":
        return list(ty.fields) if ty.fields is not None else [str(i) for i in range(len(ty.contents))]
    if k == "uni":
        fs = [fields_of(c) for c in ty.contents]
        out = fs[0]
        for f in fs[1:]:
            out = [x for x in out if x in f]
        return out
    return []


def rand_where(rng, ty, n):
    """A random slice (no model): tuple or single item."""
    def item(n):
        r = rng.random()
        if r < 0.2:
            return rng.randint(-n - 1, n) if rng.random() < 0.3 or n == 0 else rng.randint(-n, n - 1)
        if r < 0.6:
            def b():
                return None if rng.random() < 0.4 else rng.randint(-n - 2, n + 2)
            return slice(b(), b(), rng.choice([None, None, 1, 2, -1, -2, 3, -3, 4, -4]))
        if r < 0.65:
            return None
        if r < 0.7:
            return Ellipsis
        if r < 0.85:
            k = rng.randint(0, 4)
            m = max(n, 1)
            return np.array([rng.randint(-m, m - 1) for _ in range(k)], np.int64)
        if r < 0.95:
            return np.array([rng.random() < 0.6 for _ in range(n)], np.bool_)
        fs = fields_of(ty)
        if fs:
            return rng.choice(fs) if rng.random() < 0.6 else fs[: rng.randint(1, len(fs))]
        return slice(None)
    k = rng.choice([1, 1, 1, 2, 2, 3])
    items = [item(n)] + [item(rng.randint(0, 3)) for _ in range(k - 1)]
    fs = fields_of(ty)
    if fs and rng.random() < 0.3:
        items.insert(rng.randint(0, len(items)), rng.choice(fs))
    if sum(1 for x in items if x is Ellipsis) > 1:
        items = [x for x in items if x is not Ellipsis]
    if not items:
        return slice(None)
    return items[0] if len(items) == 1 else tuple(items)


def like(rng, ty, v, cfg):
    """New values of the same nested shape as v (for broadcasting partners)."""
    k = ty.kind
    if v is None:
        return None
    if k == "prim":
        return rand_prim_value(rng, ty.dtype, cfg)
    if k in ("str", "bytes"):
        return rand_value(rng, ty, cfg)
    if k in ("list", "reg"):
        return [like(rng, ty.content, x, cfg) for x in v]
    if k == "opt":
        return like(rng, ty.content, v, cfg)
    if k == "rec":
        return [like(rng, c, x, cfg) for c, x in zip(ty.contents, v)]
    return U(v.tag, like(rng, ty.contents[v.tag], v.v, cfg))


def rand_op(rng, ty, vals, cfg, only=None):
    name = rng.choice(only or NAMES)
    op = make_op(rng, ty, vals, cfg, name)
    op.via = name
    m = re.search(r"axis=(-?\d+)", op.what[:60] if name.startswith("concat") else op.what)
    op.axis = int(m.group(1)) if m else None
    return op


def make_op(rng, ty, vals, cfg, name):
    n = len(vals)
    ax = axis_of(rng, ty)
    if name == "getitem":
        w = rand_where(rng, ty, n)
        return Op(name, lambda a: a[w], repr(w))
    if name == "getitem-array":
        k = rng.randint(0, 4)
        m = max(n, 1)
        idx = [rng.randint(-m, m - 1) for _ in range(k)]
        ety = Prim(rng.choice(["int64", "int64", "int32", "uint8", "int8"]))
        if ety.dtype == "uint8":
            idx = [abs(i) % m for i in idx]
        if rng.random() < 0.4:
            ety = Opt(ety)
            idx = [None if rng.random() < 0.3 else i for i in idx]
        return Op(name, lambda a, i: a[i], repr(idx), [(ety, idx)])
    if name == "getitem-jagged":
        t = ty.content if ty.kind == "opt" else ty
        if t.kind not in ("list", "reg") or ty.kind == "opt":
            return Op("getitem", lambda a: a[::-1], "[::-1]")
        boolean = rng.random() < 0.5
        jag = []
        for v in vals:
            if boolean:
                jag.append([rng.random() < 0.5 for _ in v])
            else:
                jag.append([rng.randrange(len(v)) for _ in range(rng.randint(0, 3))] if len(v) else [])
        jt = Prim("bool" if boolean else "int64")
        if rng.random() < 0.3:
            jt = Opt(jt)
            jag = [[None if rng.random() < 0.3 else x for x in j] for j in jag]
        return Op(name, lambda a, j: a[j], repr(jag), [(Lst(jt), jag)])
    if name == "iterate":
        return Op(name, lambda a: [x for x in a])
    if name == "at":
        i = rng.randint(-n, n - 1) if n else 0
        return Op(name, lambda a: a[i], str(i))
    if name == "field":
        fs = fields_of(ty)
        if not fs:
            return Op("fields", lambda a: ak.fields(a))
        f = rng.choice(fs)
        return Op(name, lambda a: a[f], f)
    if name in REDUCERS:
        kd, mi = rng.random() < 0.3, rng.random() < 0.5
        if rng.random() < 0.15:
            ax = None
        return Op(name, lambda a: getattr(ak, name)(a, axis=ax, keepdims=kd, mask_identity=mi), "axis=%r keepdims=%r mask=%r" % (ax, kd, mi), tol=1e-5)
    if name in ("mean", "var", "std", "moment", "softmax"):
        kd = rng.random() < 0.3
        if name == "moment":
            return Op(name, lambda a: ak.moment(a, 2, axis=ax, keepdims=kd), "axis=%r" % ax, tol=1e-5)
        if name == "softmax":
            return Op(name, lambda a: ak.softmax(a, axis=ax), "axis=%r" % ax, tol=1e-5)
        return Op(name, lambda a: getattr(ak, name)(a, axis=ax, keepdims=kd), "axis=%r kd=%r" % (ax, kd), tol=1e-5)
    if name in ("sort", "argsort"):
        asc, st = rng.random() < 0.5, True if name == "argsort" else rng.random() < 0.5
        return Op(name, lambda a: getattr(ak, name)(a, axis=ax, ascending=asc, stable=st), "axis=%r asc=%r" % (ax, asc))
    if name == "num":
        return Op(name, lambda a: ak.num(a, axis=ax), "axis=%r" % ax)
    if name == "size":
        ax = None if rng.random() < 0.5 else ax
        return Op(name, lambda a: ak.size(a, axis=ax), "axis=%r" % ax)
    if name == "flatten":
        if rng.random() < 0.3:
            ax = None
        return Op(name, lambda a: ak.flatten(a, axis=ax), "axis=%r" % ax)
    if name == "ravel":
        return Op("flatten", lambda a: ak.flatten(a, axis=None), "axis=None")
    if name == "unflatten":
        if rng.random() < 0.7:
            counts, left = [], n
            while left > 0:
                c = rng.randint(0, min(left, 3))
                counts.append(c)
                left -= c
            if rng.random() < 0.1:
                counts.append(1)
            return Op(name, lambda a: ak.unflatten(a, counts), "%r axis=0" % counts)
        k = rng.randint(0, 3)
        return Op(name, lambda a: ak.unflatten(a, k, axis=ax), "%r axis=%r" % (k, ax))
    if name == "local_index":
        return Op(name, lambda a: ak.local_index(a, axis=ax), "axis=%r" % ax)
    if name == "run_lengths":
        return Op(name, lambda a: ak.run_lengths(a))
    if name == "pad_none":
        t, clip = rng.randint(0, 4), rng.random() < 0.5
        return Op(name, lambda a: ak.pad_none(a, t, axis=ax, clip=clip), "%d axis=%r clip=%r" % (t, ax, clip))
    if name == "fill_none":
        v = rng.choice([0, 5, 2.5, True, "s"]) if rng.random() < 0.9 else [1, 2]
        return Op(name, lambda a: ak.fill_none(a, v), repr(v))
    if name == "is_none":
        return Op(name, lambda a: ak.is_none(a, axis=ax), "axis=%r" % ax)
    if name == "singletons":
        return Op(name, lambda a: ak.singletons(a))
    if name == "firsts":
        return Op(name, lambda a: ak.firsts(a, axis=ax), "axis=%r" % ax)
    if name == "mask":
        m = [rng.random() < 0.6 for _ in range(n)]
        vw = rng.random() < 0.7
        return Op(name, lambda a, b: ak.mask(a, b, valid_when=vw), "%r valid_when=%r" % (m, vw), [(Prim("bool"), m)])
    if name in ("combinations", "argcombinations"):
        k, rep = rng.randint(1, 3), rng.random() < 0.4
        return Op(name, lambda a: getattr(ak, name)(a, k, replacement=rep, axis=ax), "%d axis=%r replacement=%r" % (k, ax, rep))
    if name in ("cartesian", "argcartesian"):
        ax = rng.choice([0, 1, 1, 1])
        nested = rng.random() < 0.3
        oty = Lst(Prim("int64")) if ax == 1 else Prim("int64")
        ov = rand_values(rng, oty, cfg, n)
        return Op(name, lambda a, b: getattr(ak, name)([a, b], axis=ax, nested=nested), "axis=%r nested=%r with %r" % (ax, nested, ov), [(oty, ov)])
    if name == "zip":
        oty = Prim("int64")
        ov = rand_values(rng, oty, cfg, n)
        lim = rng.choice([None, 1, 2])
        return Op(name, lambda a, b: ak.zip({"p": a, "q": b}, depth_limit=lim), "depth_limit=%r with %r" % (lim, ov), [(oty, ov)])
    if name == "unzip":
        return Op(name, lambda a: list(ak.unzip(a)))
    if name == "with_field":
        oty = Prim("float64")
        ov = rand_values(rng, oty, cfg, n)
        f = rng.choice(["new"] + fields_of(ty))
        return Op(name, lambda a, b: ak.with_field(a, b, f), "%r = %r" % (f, ov), [(oty, ov)])
    if name == "with_name":
        return Op(name, lambda a: ak.with_name(a, "nm"))
    if name == "without_parameters":
        return Op(name, lambda a: ak.without_parameters(a))
    if name == "with_parameter":
        return Op(name, lambda a: ak.with_parameter(a, "p", 1))
    if name == "concatenate":
        oty = ty if rng.random() < 0.6 else rand_type(rng, cfg)
        ov = rand_values(rng, oty, cfg)
        return Op(name, lambda a, b: ak.concatenate([a, b]), "axis=0 with %r %s" % (oty, short([strip(oty, v) for v in ov])), [(oty, ov)])
    if name == "concatenate1":
        t = ty.content if ty.kind == "opt" else ty
        oty = t if t.kind == "list" else Lst(Prim("int64"))
        ov = rand_values(rng, oty, cfg, n)
        return Op("concatenate", lambda a, b: ak.concatenate([a, b], axis=1), "axis=1 with %r %s" % (oty, short([strip(oty, v) for v in ov])), [(oty, ov)])
    if name == "where":
        m = [rng.random() < 0.5 for _ in range(n)]
        ov = [like(rng, ty, v, cfg) for v in vals]
        return Op(name, lambda a, c, b: ak.where(c, a, b), "%r" % m, [(Prim("bool"), m), (ty, ov)])
    if name == "broadcast_arrays":
        ov = rand_values(rng, Prim("int64"), cfg, n)
        return Op(name, lambda a, b: list(ak.broadcast_arrays(a, b)), "with %r" % ov, [(Prim("int64"), ov)])
    if name == "ufunc1":
        u = rng.choice(UFUNC1)
        return Op("ufunc." + u, lambda a: getattr(np, u)(a), tol=1e-5)
    if name == "ufunc2":
        u = rng.choice(UFUNC2)
        r = rng.random()
        if r < 0.4:
            ov = [like(rng, ty, v, cfg) for v in vals]
            if rng.random() < 0.5:
                return Op("ufunc." + u, lambda a, b: getattr(np, u)(a, b), "with %s" % short([strip(ty, v) for v in ov]), [(ty, ov)], tol=1e-5)
            return Op("ufunc." + u, lambda a, b: getattr(np, u)(b, a), "flipped with %s" % short([strip(ty, v) for v in ov]), [(ty, ov)], tol=1e-5)
        if r < 0.7:
            ov = rand_values(rng, Prim("int64"), cfg, n)
            return Op("ufunc." + u, lambda a, b: getattr(np, u)(a, b), "with %r" % ov, [(Prim("int64"), ov)], tol=1e-5)
        s = rng.choice([2, 1.5, 0])
        return Op("ufunc." + u, lambda a: getattr(np, u)(a, s), "with %r" % s, tol=1e-5)
    if name == "isclose":
        return Op(name, lambda a: ak.isclose(a, a))
    if name == "nan_to_num":
        return Op(name, lambda a: ak.nan_to_num(a))
    if name in ("zeros_like", "ones_like", "full_like"):
        if name == "full_like":
            return Op(name, lambda a: ak.full_like(a, 3))
        return Op(name, lambda a: getattr(ak, name)(a))
    if name == "to_list":
        return Op(name, lambda a: ak.to_list(a))
    if name == "to_json":
        return Op(name, lambda a: ak.to_json(a))
    if name == "to_numpy":
        return Op(name, lambda a: ak.to_numpy(a, allow_missing=True))
    if name == "to_regular":
        return Op(name, lambda a: ak.to_regular(a, axis=ax), "axis=%r" % ax)
    if name == "from_regular":
        ax = None if rng.random() < 0.2 else ax
        return Op(name, lambda a: ak.from_regular(a, axis=ax), "axis=%r" % ax)
    if name == "values_astype":
        d = rng.choice(["float64", "int32", "int64", "uint8"])
        return Op(name, lambda a: ak.values_astype(a, d), d)
    if name == "buffers":
        return Op(name, lambda a: ak.from_buffers(*ak.to_buffers(a)))
    if name == "pickle":
        return Op(name, lambda a: pickle.loads(pickle.dumps(a)))
    if name == "copy":
        return Op(name, lambda a: ak.copy(a))
    if name == "packed":
        return Op(name, lambda a: ak.packed(a))
    if name == "arrow":
        return Op(name, lambda a: ak.from_arrow(ak.to_arrow(a, allow_tensor=False)))
    if name == "type":
        return Op(name, lambda a: str(ak.type(a)))
    if name == "len":
        return Op(name, lambda a: len(a))
    if name == "repr":
        return Op(name, lambda a: repr(a))
    if name == "materialized":
        return Op(name, lambda a: ak.materialized(a))
    if name == "to_categorical":
        if has_kind(ty, ("rec", "uni")):        # finding C01-is-unique-nested: the validity of a categorical with record categories
            return Op("copy", lambda a: ak.copy(a))
        return Op(name, lambda a: ak.to_categorical(a))
    if name == "is_valid":
        return Op(name, lambda a: ak.is_valid(a))
    if name == "to_pandas":
        return Op(name, lambda a: pandas_list(ak.to_pandas(a)))
    if name == "repartition":
        k = rng.randint(1, 4)
        return Op(name, lambda a: ak.repartition(a, k), str(k))
    raise AssertionError(name)


def pandas_list(x):
    if isinstance(x, list):
        return [pandas_list(y) for y in x]
    return [list(map(str, x.columns)), [[i if isinstance(i, tuple) else (i,) for i in x.index.tolist()]], [[str(v) for v in row] for row in x.itertuples(index=False)]]


NAMES = (["getitem"] * 8 + ["getitem-array"] * 3 + ["getitem-jagged"] * 3 + ["at", "field", "iterate"] + REDUCERS + ["mean", "var", "softmax"]
         + ["sort", "argsort"] * 2 + ["num"] * 2 + ["size", "run_lengths", "local_index"] + ["flatten"] * 3 + ["unflatten"] * 2
         + ["pad_none"] * 3 + ["fill_none"] * 2 + ["is_none"] * 2 + ["singletons", "firsts"] + ["mask"] * 2
         + ["combinations", "argcombinations", "cartesian", "argcartesian"] + ["zip", "unzip", "with_field", "with_name", "without_parameters", "with_parameter"]
         + ["concatenate"] * 3 + ["concatenate1"] + ["where"] * 2 + ["broadcast_arrays"] + ["ufunc1"] * 2 + ["ufunc2"] * 4 + ["isclose", "nan_to_num", "zeros_like", "full_like"]
         + ["to_list", "to_json", "to_numpy", "to_regular", "from_regular", "values_astype", "buffers", "pickle", "copy", "packed", "arrow", "type", "len", "repr", "is_valid", "to_categorical", "to_pandas", "repartition"])


def plain(x):
    """Result of an op as plain comparable data."""
    if isinstance(x, (ak.Array, ak.Record, L.Content, L.Record, ak.partition.PartitionedArray)):
        return decode(x)
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return decode(x)


def outcome(op, args):
    """('ok', plain) | ('err', exception class name)"""
    try:
        r = op.fn(*args)
    except Exception as e:
        return "err", e
    return "ok", r
