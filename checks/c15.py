"""C15 NumPy and pandas conversions are exact."""
import warnings
from vlib.common import *
from vlib import vgen

META = {
    "property": "C15",
    "technique": "runtime monitor: NumPy arrays of random dtype, rank, strides, masks and fields converted and read back from raw buffers; layouts of rectangular and ragged values converted to NumPy and pandas and compared with a reference conversion of the generating values; under ASan/UBSan",
    "cases": {"quick": 16000, "thorough": 400000},
    "rule": "a case is one NumPy array (strided, reversed, transposed, broadcast, masked or structured) taken through from_numpy and back, one array in a random layout taken through to_numpy and asarray, or one through to_pandas with every cell looked up; distinct = (dtype, shape, strides) or (form, conversion); non-trivial = a comparison or a confirmed refusal",
    "assumptions": ["the element type of an array of no strings is not compared", "integers in pandas columns with missing values are compared within 2**53"],
}
DT = ["?", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8", "c8", "c16", "M8[s]", "m8[ms]", "M8[D]", "S3", "U4"]
CFG = Cfg(prims=vgen.ALLPRIMS, nan=True, empty=False, unions=0, virtual=0.08, partitioned=0.1, maxdepth=4)
PCFG = CFG.but(prims=["bool", "int64", "int32", "uint8", "float64", "float32"], bytestrings=0, extremes=0)


def elements(rng, dt, n):
    d = np.dtype(dt)
    if d.kind == "b":
        return np.array([rng.random() < 0.5 for _ in range(n)], d)
    if d.kind == "S":
        return np.array(["".join(rng.choice("abc\x00\x7f") for _ in range(rng.randint(0, 3))).encode() for _ in range(n)], d)
    if d.kind == "U":
        return np.array(["".join(rng.choice(["a", "b", "é", "😀", "\u20ac"]) for _ in range(rng.randint(0, 4))) for _ in range(n)], d)
    if d.kind in "Mm":
        return np.array([rng.randint(-10**6, 10**6) for _ in range(n)], "i8").view("i8").astype("i8").view(d)
    return np.frombuffer(bytes(rng.randrange(256) for _ in range(n * d.itemsize)), d).copy() if rng.random() < 0.3 else \
        np.array([rng.randint(-5 if d.kind != "u" else 0, 99) for _ in range(n)], d)


def restride(rng, a):
    """The same kind of array with unusual strides (a view)."""
    steps = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        r = rng.randint(0, 4)
        if a.ndim == 0:
            break
        ax = rng.randrange(a.ndim)
        if r == 0:
            a = a[(slice(None),) * ax + (slice(None, None, -1),)]
        elif r == 1:
            a = a[(slice(None),) * ax + (slice(rng.randint(0, 1), None, 2),)]
        elif r == 2:
            perm = list(range(a.ndim))
            rng.shuffle(perm)
            a = a.transpose(perm)
        elif r == 3 and a.shape[ax] > 1:
            a = a[(slice(None),) * ax + (slice(1, None),)]
        elif r == 4:
            a = np.broadcast_to(a, (rng.randint(1, 3),) + a.shape)
        steps.append(r)
    return a


def tovalues(a):
    """Nested lists of an array's elements, dates as NumPy scalars, missing as None."""
    if isinstance(a, np.ma.MaskedArray):
        d, m = np.ma.getdata(a), np.ma.getmaskarray(a)

        def rec(d, m):
            if d.ndim == 1:
                return [None if y else one(x) for x, y in zip(d, m)]
            return [rec(x, y) for x, y in zip(d, m)] if d.ndim else (None if m else one(d[()]))
        return rec(d, m)

    def rec1(x):
        if x.ndim == 0:
            return one(x[()])
        return [one(y) for y in x] if x.ndim == 1 else [rec1(y) for y in x]
    return rec1(a)


def one(x):
    if isinstance(x, np.void):
        return {n: one(x[n]) if not isinstance(x[n], np.ndarray) else tovalues(x[n]) for n in x.dtype.names}
    if isinstance(x, (np.datetime64, np.timedelta64)):
        return x
    return x.item() if isinstance(x, np.generic) else x


def identical(a, b):
    """None, or how two NumPy arrays differ."""
    am, bm = isinstance(a, np.ma.MaskedArray), isinstance(b, np.ma.MaskedArray)
    if a.shape != b.shape:
        return "shape %s, expected %s" % (b.shape, a.shape)
    if a.dtype != b.dtype and not (a.dtype.kind in "SU" and b.dtype.kind == a.dtype.kind) and not (a.dtype.kind in "SU" and (a.size == 0 or np.ma.getmaskarray(a).all())):
        return "dtype %s, expected %s" % (b.dtype, a.dtype)
    if am and not bm and np.ma.getmaskarray(a).tolist() != np.zeros(a.shape, bool).tolist() or bm and not am:
        return "masked %s, expected %s" % (bm, am)
    va, vb = tovalues(a), tovalues(b)
    if not same(va, vb):
        return "values %s, expected %s" % (short(vb, 500), short(va, 500))


def numpy_case(rng, rec):
    rank = rng.choice([0, 1, 1, 2, 2, 3, 4])
    shape = tuple(rng.choice([1, 2, 3, 4, 5]) if rng.random() < 0.95 else 0 for _ in range(rank))
    if rank and rng.random() < 0.05:
        shape = (0,) + tuple(max(1, x) for x in shape[1:])
    n = int(np.prod(shape, dtype=int))
    struct = rng.random() < 0.2
    if struct:
        names = rng.sample(["x", "y", "z", "b", "a"], rng.choice([1, 2, 3]))
        dts = [rng.choice(DT) for _ in names]
        dt = np.dtype(list(zip(names, dts)), align=rng.random() < 0.5)
        a = np.zeros(n, dt)
        for k, d in zip(names, dts):
            a[k] = elements(rng, d, n)
    else:
        dt = rng.choice(DT)
        a = elements(rng, dt, n)
    a = a.reshape(shape)
    a = restride(rng, a)
    masked = not struct and rng.random() < 0.25 and a.ndim > 0
    if masked:
        if rng.random() < 0.2 and a.dtype.kind not in "SU":
            a = np.ma.MaskedArray(a)
        else:
            m = np.array([rng.random() < 0.4 for _ in range(a.size)], bool).reshape(a.shape)
            if rng.random() < 0.3:
                m = np.asfortranarray(m)
            a = np.ma.MaskedArray(a, m)
    kw = {}
    if rng.random() < 0.5:
        kw["regulararray"] = rng.random() < 0.5
    rec.sig((str(a.dtype), a.shape, a.strides, masked, str(kw)))
    what = "from_numpy(dtype %s, shape %s, strides %s%s, %s)\n%s" % (a.dtype, a.shape, a.strides, ", masked" if masked else "", kw, short(tovalues(a), 600))
    rec.step(what)
    if 0 in a.shape[1:]:
        rec.count("zero-size dimension")
        if struct or masked or kw.get("regulararray") or a.dtype.kind in "SU":
            raise Skip()
    try:
        arr = ak.from_numpy(a, **kw) if rng.random() < 0.8 or kw else ak.Array(a)
    except Exception as e:
        raise Violation("from_numpy refused", "%s\n%s: %s" % (what, type(e).__name__, str(e)[:400]))
    want = tovalues(a) if a.ndim else [tovalues(a)]
    got = dec(arr, "from_numpy")
    if struct and a.ndim > 1:           # records of lists, one field at a time
        for k in a.dtype.names:
            g = dec(arr[k], "from_numpy field")
            w = tovalues(a[k])
            if not same(w, g):
                raise Violation("from_numpy: wrong data in field", "%s\nfield %s\nexpected %s\n     got %s\n%s" % (what, k, short(w), short(g), show_layout(arr.layout)))
        rec.count("structured")
        return
    if not same(want, got):
        raise Violation("from_numpy: wrong data", "%s\nexpected %s\n     got %s\n%s" % (what, short(want), short(got), show_layout(arr.layout)))
    if len(arr) != len(want):
        raise Violation("from_numpy: wrong length", what)
    back = ak.to_numpy(arr)
    b0 = a if a.ndim else a.reshape(1)
    if struct:
        if list(back.dtype.names) != list(a.dtype.names) or back.shape != b0.shape:
            raise Violation("from_numpy and back: wrong fields", "%s\ngot %s" % (what, back.dtype))
        d = None
        for k in a.dtype.names:
            d = d or identical(b0[k], back[k])
    elif b0.dtype.kind in "SU" and b0.ndim > 1 and not masked:
        d = None if same(tovalues(b0), tovalues(back)) else "values %s" % short(tovalues(back))
    else:
        d = identical(b0, back)
    if d:
        raise Violation("from_numpy and back", "%s\n%s\n%s" % (what, d, show_layout(arr.layout)))
    rec.count("structured" if struct else "masked" if masked else "plain")


def ref_numpy(ty, vals):
    k = ty.kind
    if k == "prim":
        return np.array(vals, dtype=ty.dtype) if len(vals) else np.zeros(0, ty.dtype)
    if k in ("str", "bytes"):
        return np.array(vals) if vals else np.zeros(0, "U1" if k == "str" else "S1")
    if k == "reg":
        flat = [y for x in vals for y in x]
        c = ref_numpy(ty.content, flat)
        return c.reshape((len(vals), ty.size) + c.shape[1:])
    if k == "list":
        if len(vals) == 0:
            raise Ambiguous()
        ns = set(len(x) for x in vals)
        if len(ns) != 1:
            raise ModelError("ragged")
        n = ns.pop()
        if n == 0:
            raise Ambiguous()
        c = ref_numpy(ty.content, [y for x in vals for y in x])
        return c.reshape((len(vals), n) + c.shape[1:])
    if k == "opt":
        keep = [v for v in vals if v is not None]
        if not keep and ty.content.kind != "prim":
            raise Ambiguous()
        c = ref_numpy(ty.content, keep)
        m0 = np.array([v is None for v in vals], bool)
        data = np.zeros((len(vals),) + c.shape[1:], c.dtype)
        mask = np.zeros(data.shape, bool)
        mask[m0] = True
        data[~m0] = np.ma.getdata(c)
        mask[~m0] |= np.ma.getmaskarray(c)
        return np.ma.MaskedArray(data, mask)
    if k == "rec":
        raise NotImplementedError
    raise ModelError(k)


def missing_inside(ty, v):
    if ty.kind == "opt":
        return v is None or missing_inside(ty.content, v)
    if ty.kind in ("list", "reg"):
        return any(missing_inside(ty.content, x) for x in v)
    return False


def rect(rng, ty, vals):
    """The values with every list cut (or repeated) to one length per dimension."""
    n = rng.choice([1, 2, 3])

    def go(t, v):
        if v is None:
            return None
        if t.kind == "list":
            m = sizes.setdefault(id(t), rng.choice([1, 2, 3]))
            while len(v) < m:
                v = v + [rand_value(rng, t.content, CFG)]
            return [go(t.content, x) for x in v[:m]]
        if t.kind == "opt":
            return go(t.content, v)
        if t.kind == "reg":
            return [go(t.content, x) for x in v]
        return v
    sizes = {}
    return [go(ty, v) for v in vals]


def layout_case(rng, rec):
    cfg = CFG.but(records=0, tuples=0, zero_size_regular=0)
    if rng.random() < 0.15:
        return struct_case(rng, rec)
    ty = rand_type(rng, cfg, 0)
    vals = rand_values(rng, ty, cfg, rng.choice([1, 2, 3, 5]))
    if rng.random() < 0.7:
        vals = rect(rng, ty, vals)
    lay = make_top(ty, vals, rng, cfg)
    if isinstance(lay, ak.partition.PartitionedArray) and has_kind(ty, "opt") and has_kind(ty, "list"):
        raise Skip()        # C15-partitions: a partition without any list has no second dimension
    plain = [strip(ty, v) for v in vals]
    rec.sig((describe(lay), tuple(len(v) if isinstance(v, (list, str)) else -1 for v in vals)))
    try:
        ref = ref_numpy(ty, vals)
        err = None
    except Ambiguous:
        rec.count("shape undetermined")
        return
    except ModelError as e:
        ref, err = None, e
    what = "to_numpy of %s\n%s\n%s" % (ty, short(plain, 600), show_layout(lay))
    rec.step("to_numpy")
    arr = ak.Array(lay)
    missing = any(missing_inside(ty, v) for v in vals)
    strings = has_kind(ty, "str") or has_kind(ty, "bytes")
    for name, fn, nomiss in (("to_numpy", lambda: ak.to_numpy(arr), False), ("to_numpy(allow_missing=False)", lambda: ak.to_numpy(arr, allow_missing=False), True), ("asarray", lambda: np.asarray(arr), True)):
        try:
            got = fn()
        except ValueError as e:
            if err is not None or nomiss and missing:
                rec.count("refused")
                continue
            raise Violation("%s refused" % name, "%s\n%s" % (str(e)[:400], what))
        except Exception as e:
            raise Violation("%s: %s" % (name, type(e).__name__), "%s\n%s" % (str(e)[:400], what))
        if err is not None:
            raise Violation("%s: ragged data converted" % name, "%s\ngot %s %s" % (what, got.shape, short(got.tolist())))
        if nomiss and missing:
            raise Violation("%s: missing values converted" % name, "%s\ngot %s" % (what, short(got.tolist())))
        if isinstance(lay, ak.partition.PartitionedArray) and isinstance(got, np.ma.MaskedArray) and not isinstance(ref, np.ma.MaskedArray):
            pass
        d = identical(np.ma.getdata(ref) if nomiss and isinstance(ref, np.ma.MaskedArray) else ref, got)
        if d and strings and "dtype" in d:
            d = None if same(tovalues(ref), tovalues(got)) else d
        if d:
            raise Violation("%s: wrong data" % name, "%s\n%s" % (what, d))
        rec.count(name)


def struct_case(rng, rec):
    cfg = CFG.but(virtual=0.03)
    prims = rng.sample(vgen.ALLPRIMS, rng.choice([1, 2, 3]))
    names = rng.sample(["x", "y", "z", "b", "a"], len(prims))
    tys = [Opt(Prim(p)) if rng.random() < 0.3 else vgen.STR if rng.random() < 0.1 else Prim(p) for p in prims]
    ty = Rec(names, tys)
    vals = rand_values(rng, ty, cfg, rng.choice([1, 2, 3, 5]))
    lay = make_top(ty, vals, rng, cfg)
    rec.sig((describe(lay), "struct"))
    what = "to_numpy of %s\n%s\n%s" % (ty, short([strip(ty, v) for v in vals], 600), show_layout(lay))
    rec.step("to_numpy record")
    try:
        got = ak.to_numpy(ak.Array(lay))
    except Exception as e:
        raise Violation("to_numpy of records refused", "%s\n%s: %s" % (what, type(e).__name__, str(e)[:300]))
    if list(got.dtype.names) != names or got.shape != (len(vals),):
        raise Violation("to_numpy of records: wrong fields", "%s\n%s %s" % (what, got.dtype, got.shape))
    for i, (n, t) in enumerate(zip(names, tys)):
        d = identical(ref_numpy(t, [v[i] for v in vals]), got[n])
        if t.kind in ("str", "bytes") or d and "masked True" in d:
            d = None if same(tovalues(ref_numpy(t, [v[i] for v in vals])), tovalues(got[n])) else "values"
        if d:
            raise Violation("to_numpy of records: wrong data", "%s\nfield %s: %s" % (what, n, d))
    rec.count("record arrays")


def columns(ty, rows, path, out):
    """Every scalar of a column under the index of its position: path -> [(index, value)]."""
    k = ty.kind
    if k in ("list", "reg") or k == "opt" and ty.content.kind in ("list", "reg"):
        c = ty.content.content if k == "opt" else ty.content
        columns(c, [(ix + (j,), y) for ix, x in rows if x is not None for j, y in enumerate(x)], path, out)
    elif k == "rec":
        for j, f in enumerate(ty.contents):
            columns(f, [(ix, x[j]) for ix, x in rows], path + (str(j) if ty.fields is None else ty.fields[j],), out)
    else:
        out.append((path, rows))


def option_of_record(ty):
    if ty.kind == "opt" and ty.content.kind == "rec":
        return True
    kids = [ty.content] if ty.kind in ("list", "reg", "opt") else list(ty.contents) if ty.kind == "rec" else []
    return any(option_of_record(k) for k in kids)


def pandas_case(rng, rec):
    import pandas
    cfg = PCFG.but(zero_size_regular=0)
    ty = rand_type(rng, cfg, 0)
    if option_of_record(ty) or ty.kind == "rec" and not ty.contents or not numfields(ty):
        raise Skip()
    n = rng.choice([0, 1, 2, 3, 5]) if ty.kind != "rec" else rng.choice([1, 2, 3, 5])
    vals = rand_values(rng, ty, cfg, n)
    lay = make_top(ty, vals, rng, cfg)
    rec.sig((describe(lay), "pandas"))
    if isinstance(lay, ak.partition.PartitionedArray) and "Union" in str(lay.toContent().form):
        raise Skip()        # C27-concat-union
    plain = [strip(ty, v) for v in vals]
    what = "to_pandas of %s\n%s\n%s" % (ty, short(plain, 600), show_layout(lay))
    rec.step("to_pandas")
    out = []
    columns(ty, [((i,), v) for i, v in enumerate(vals)], (), out)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            tables = ak.to_pandas(ak.Array(lay), how=None)
        except Exception as e:
            raise Violation("to_pandas refused: %s" % type(e).__name__, "%s\n%s" % (str(e)[:400], what))
        got = []
        for t in tables:
            ix = [tuple(int(y) for y in x) if isinstance(x, tuple) else (int(x),) for x in t.index]
            for j, c in enumerate(t.columns):
                name = c if isinstance(c, tuple) else (c,)
                while name and name[-1] == "":
                    name = name[:-1]
                got.append((name, ix, t.iloc[:, j].tolist()))
    want = [(p or ("values",), [ix for ix, _ in rows], [v for _, v in rows]) for p, rows in out]
    if [g[0] for g in got] != [w[0] for w in want]:
        raise Violation("to_pandas: wrong columns", "%s\nexpected %s\n     got %s" % (what, [w[0] for w in want], [g[0] for g in got]))
    for (name, wi, wv), (_, gi, gv) in zip(want, got):
        if wi != gi:
            raise Violation("to_pandas: wrong rows", "%s\ncolumn %s\nexpected index %s\n     got %s" % (what, name, short(wi, 500), short(gi, 500)))
        for w, g in zip(wv, gv):
            if w is None:
                ok = g is None or g != g
            elif isinstance(w, float):
                ok = w != w and g != g or float(g) == float(w)
            elif isinstance(w, str):
                ok = isinstance(g, str) and g == w
            else:
                ok = g == w
            if not ok:
                raise Violation("to_pandas: wrong value", "%s\ncolumn %s\nexpected %s\n     got %s" % (what, name, short(wv, 500), short(gv, 500)))
    rec.count("pandas columns", len(got))


def numfields(ty):
    if ty.kind == "rec":
        return len(ty.contents) > 0 and all(numfields(c) for c in ty.contents)
    if ty.kind in ("list", "reg", "opt"):
        return numfields(ty.content)
    return True


def run_case(rng, rec, i):
    r = rng.random()
    if r < 0.45:
        numpy_case(rng, rec)
    elif r < 0.8:
        layout_case(rng, rec)
    else:
        pandas_case(rng, rec)
