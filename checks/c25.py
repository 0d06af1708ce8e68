"""C25 Strings and categorical values behave as single values."""
import json
import pickle
from vlib.common import *
from vlib import vgen

META = {
    "property": "C25",
    "technique": "runtime monitor: byte-for-byte reference values of strings and bytestrings (empty, multi-byte, embedded zero bytes, long shared prefixes) carried through construction, slicing, comparison, sorting, concatenation, conversion and categorical encoding on random layouts, every result decoded from its buffers; under ASan/UBSan",
    "cases": {"quick": 14000, "thorough": 700000},
    "rule": "a case is one array of strings, bytestrings or categories below random lists, options and records in a random layout, and one operation on it (constructing, comparing for equality with an array or a scalar, sorting, concatenating, slicing, converting, encoding or decoding categories, comparing or computing with categories); distinct = (form, operation); non-trivial = a result was compared",
    "assumptions": ["no operation's axis enters the strings (C25-axis-in-strings)", "text is valid Unicode"],
}
CFG = Cfg(virtual=0.1, partitioned=0.08, maxdepth=3, unions=False, biglen=0.04, huge=0.1, zero_size_regular=False)
WORDS = ["", "a", "b", "aa", "ab", "a" * 40, "a" * 40 + "b", "a" * 39, "\u00e9", "e\u0301", "\u03b1\u03b2\u03b3", "\u03b1\u03b2", "\U0001f600", "\U0001f600\U0001f601", " ", "a ", "A", "0", "\x00", "a\x00", "\x00a",
         "a\x00b", "\n", "\"quoted\"", "\\", "None", "nan", "x" * 300, "x" * 299 + "y", "\u007f", "\u0080", "\u07ff", "\u0800", "\uffff"]
BWORDS = [b"", b"a", b"b", b"\x00", b"\x00\x00", b"\xff", b"\xff\xfe", b"\x80", b"a\x00", b"a\x00b", bytes(range(256)), bytes(range(255)), b"\xc3", b"\xc3\xa9", b"z" * 100, b"z" * 99 + b"\xff"]


def setval(rng, ty, v, pool):
    """Replaces strings by hostile ones (few distinct, so that equal ones meet)."""
    if v is None:
        return None
    k = ty.kind
    if k in ("str", "bytes"):
        return rng.choice(pool[k]) if rng.random() < 0.9 else (rng.choice(WORDS) if k == "str" else rng.choice(BWORDS))
    if k in ("list", "reg"):
        return [setval(rng, ty.content, x, pool) for x in v]
    if k == "opt":
        return setval(rng, ty.content, v, pool)
    if k == "rec":
        return tuple(setval(rng, c, x, pool) for c, x in zip(ty.contents, v))
    return v


def pools(rng):
    base = rng.choice(WORDS)
    p = rng.sample(WORDS, rng.choice([2, 4, 8])) + [base, base + rng.choice(["", "a", "\x00", "\u00e9"])]
    b = rng.choice(BWORDS)
    q = rng.sample(BWORDS, rng.choice([2, 4, 8])) + [b, b + rng.choice([b"", b"\x00", b"\xff"])]
    return {"str": p, "bytes": q}


def wrap(rng, ty, n):
    for _ in range(n):
        k = rng.choice(["list", "list", "reg", "opt"])
        if k == "opt" and ty.kind == "opt":
            k = "list"
        ty = Lst(ty) if k == "list" else Opt(ty) if k == "opt" else Reg(ty, rng.choice([1, 2, 3]))
    return ty


def leaf(rng):
    return rng.choice([vgen.STR, vgen.STR, vgen.BYTES])


def array(rng, ty=None, records=True, cfg=CFG):
    if ty is None:
        ty = leaf(rng)
        if records and rng.random() < 0.3:
            ty = Rec(rng.choice([["y", "x"], None]), [wrap(rng, ty, rng.choice([0, 1])), wrap(rng, leaf(rng), rng.choice([0, 1]))], None)
        ty = wrap(rng, ty, rng.choice([0, 0, 1, 1, 2]))
    pool = pools(rng)
    vals = [setval(rng, ty, v, pool) for v in rand_values(rng, ty, cfg)]
    return ty, vals, pool, make_top(ty, vals, rng, cfg)


def compare(rec, key, what, want, got, lays):
    g = dec(got, key)
    if not same(want, g):
        raise Violation(key + ": wrong result", "%s\nexpected %s\n     got %s\n%s" % (what, short(want), short(g), "\n".join(show_layout(l) for l in lays)))
    rec.count("agreed:" + key)


def run(rec, key, what, want, fn, lays, skip=None):
    rec.step("%s %s" % (key, what))
    st = attempt(fn)
    if st[0] == "err":
        if UNSUPPORTED.search(str(st[1])) or skip and skip(st[1]):
            rec.count("unsupported:" + key)
            return None
        raise Violation(key + ": raised", "%s\nexpected %s\nraised %s: %s\n%s" % (what, short(want), type(st[1]).__name__, str(st[1])[:400], "\n".join(show_layout(l) for l in lays)))
    compare(rec, key, what, want, st[1], lays)
    return st[1]


def construct(rng, rec, i):
    ty, vals, pool, lay = array(rng)
    plain = [strip(ty, v) for v in vals]
    how = rng.choice(["list", "iter", "builder", "json", "to_list", "tolist", "numpy", "pickle", "buffers", "elements", "packed", "to_json"])
    rec.sig((how, vgen.describe(lay)))
    a = ak.Array(lay)
    if how == "to_list":
        run(rec, how, "", plain, lambda: ak.from_iter(ak.to_list(a)) if False else raw(ak.to_list(a)), [lay])
    elif how == "tolist":
        run(rec, how, "", plain, lambda: raw(a.tolist()), [lay])
    elif how == "elements":
        run(rec, how, "", plain, lambda: raw([plainval(x) for x in a]), [lay])
    elif how == "list":
        run(rec, how, repr(plain)[:300], plain, lambda: ak.Array(plain), [])
    elif how == "iter":
        run(rec, how, repr(plain)[:300], plain, lambda: ak.from_iter(iter(plain), initial=rng.choice([1, 2, 1024]), resize=rng.choice([1.1, 1.5, 8.0])), [])
    elif how == "builder":
        def fn():
            b = ak.ArrayBuilder()
            for x in plain:
                fill(b, x)
            return b.snapshot()
        run(rec, how, repr(plain)[:300], plain, fn, [])
    elif how in ("json", "to_json"):
        if has_kind(ty, ["bytes"]):
            raise Skip("bytes in JSON")
        if how == "json":
            text = json.dumps(plain, ensure_ascii=rng.random() < 0.5)
            if has_tuple(ty):
                raise Skip("tuple")
            run(rec, how, text[:300], plain, lambda: ak.from_json(text), [])
        else:
            run(rec, how, "", json.loads(json.dumps(plain)) if not has_tuple(ty) else untuple(plain), lambda: raw(json.loads(ak.to_json(a))), [lay])
    elif how == "pickle":
        run(rec, how, "", plain, lambda: pickle.loads(pickle.dumps(ak.repartition(a, None) if isinstance(lay, ak.partition.PartitionedArray) else a, -1)), [lay])
    elif how == "buffers":
        run(rec, how, "", plain, lambda: ak.from_buffers(*ak.to_buffers(ak.repartition(a, None) if isinstance(lay, ak.partition.PartitionedArray) else a)), [lay])
    elif how == "packed":
        run(rec, how, "", plain, lambda: ak.packed(a), [lay])
    else:
        if ty.kind not in ("str", "bytes"):
            raise Skip("not flat")
        flat = [v if isinstance(v, bytes) else v for v in vals]
        if any(v.endswith(b"\x00" if isinstance(v, bytes) else "\x00") for v in flat):
            raise Skip("NumPy drops trailing zeros")
        if not flat:
            raise Skip("empty")
        run(rec, "from_numpy", repr(flat)[:300], flat, lambda: ak.from_numpy(np.array(flat)), [])
        got = attempt(lambda: ak.to_numpy(a))
        if got[0] == "err" or got[1].tolist() != flat:
            raise Violation("to_numpy: wrong strings", "expected %s\ngot %s\n%s" % (short(flat), short(got[1]), show_layout(lay)))
        rec.count("agreed:to_numpy")


class raw(object):
    """A plain value standing for itself."""
    def __init__(self, v):
        self.v = v


def dec(x, key):
    if isinstance(x, raw):
        return x.v
    from vlib import common
    return common.dec(x, key)


def plainval(x):
    if isinstance(x, (ak.Array, ak.Record)):
        return ak.to_list(x)
    return x


def has_tuple(ty):
    return ty.kind == "rec" and ty.fields is None or any(has_tuple(c) for c in (ty.contents or []) + ([ty.content] if ty.content is not None else []))


def untuple(x):
    if isinstance(x, tuple):
        return {str(j): untuple(y) for j, y in enumerate(x)}
    if isinstance(x, list):
        return [untuple(y) for y in x]
    if isinstance(x, dict):
        return {k: untuple(y) for k, y in x.items()}
    return x


def fill(b, x):
    if x is None:
        b.null()
    elif isinstance(x, str):
        b.string(x)
    elif isinstance(x, bytes):
        b.bytestring(x)
    elif isinstance(x, list):
        with b.list():
            for y in x:
                fill(b, y)
    elif isinstance(x, tuple):
        with b.tuple(len(x)):
            for j, y in enumerate(x):
                fill(b.index(j), y)
    else:
        with b.record():
            for k, y in x.items():
                fill(b.field(k), y)


def eqmodel(v, w, neg):
    if isinstance(v, list):
        return [eqmodel(x, y, neg) for x, y in zip(v, w)]
    if v is None or w is None:
        return None
    return (v == w) != neg


def shaped(rng, ty, v, pool):
    """Another value with the same lists; strings often equal, options drawn anew."""
    k = ty.kind
    if k in ("list", "reg"):
        return [shaped(rng, ty.content, x, pool) for x in v]
    if k == "opt":
        return v if v is None else shaped(rng, ty.content, v, pool)
    if rng.random() < 0.5:
        return v
    w = rng.choice(pool[k])
    if rng.random() < 0.3:          # same length, one byte different
        if k == "bytes" and v:
            j = rng.randrange(len(v))
            w = v[:j] + bytes([v[j] ^ 1]) + v[j + 1:]
        elif k == "str" and v:
            j = rng.randrange(len(v))
            w = v[:j] + ("q" if v[j] != "q" else "r") + v[j + 1:]
    return w


def equality(rng, rec, i):
    ty = wrap(rng, leaf(rng), rng.choice([0, 0, 1, 1, 2]))
    ty, vals, pool, lay = array(rng, ty, cfg=CFG.but(partitioned=0.0))
    neg = rng.random() < 0.4
    a = ak.Array(lay)
    if rng.random() < 0.2:
        k = leafkind(ty)
        w = rng.choice(pool[k])
        if has_kind(ty, ["reg", "list"]):
            raise Skip("KNOWN C25-axis-in-strings")
        if not vals:
            raise Skip("KNOWN C25-empty-equal-scalar")
        rec.sig(("equal scalar", vgen.describe(lay)))

        def model(v):
            return [model(x) for x in v] if isinstance(v, list) else None if v is None else (v == w) != neg
        run(rec, "equal scalar", "%r" % (w,), [model(v) for v in vals], lambda: (a != w) if neg else (a == w), [lay])
        return
    vals2 = [shaped(rng, ty, v, pool) for v in vals]
    lay2 = make_top(ty, vals2, rng, CFG.but(partitioned=0.0))
    rec.sig(("equal", vgen.describe(lay), vgen.describe(lay2)))
    b = ak.Array(lay2)
    run(rec, "equal", "%s != " % neg, [eqmodel(v, w, neg) for v, w in zip(vals, vals2)], lambda: (a != b) if neg else (a == b), [lay, lay2])


def leafkind(ty):
    while ty.kind in ("list", "reg", "opt"):
        ty = ty.content
    return ty.kind


def elements(rng, rec, i):
    """One string taken out of an array compares with Python strings."""
    ty, vals, pool, lay = array(rng, leaf(rng))
    if not vals:
        raise Skip("empty")
    rec.sig(("element", vgen.describe(lay)))
    a = ak.Array(lay)
    j = rng.randrange(len(vals))
    x, v = a[j], vals[j]
    w = shaped(rng, ty, v, pool)
    if (x == v) is not True or (x != v) is not False or bool(x == w) != (v == w) or bool(x != w) != (v != w):
        raise Violation("element: wrong comparison", "%r: == %r gives %r, != gives %r; == %r gives %r, != gives %r\n%s" % (v, v, x == v, x != v, w, x == w, x != w, show_layout(lay)))
    if len(vals) > 1:
        y = a[rng.randrange(len(vals))]
    rec.count("agreed:element")


def order(rng, rec, i):
    ty = leaf(rng)
    deep = rng.random() < 0.6
    ty = Lst(ty) if deep else ty
    ty, vals, pool, lay = array(rng, ty, cfg=CFG.but(partitioned=0.0))
    asc = rng.random() < 0.7
    key = lambda s: s.encode("utf-8") if isinstance(s, str) else s
    if any(not isinstance(v, list) and 0 in key(v) or isinstance(v, list) and any(0 in key(x) for x in v) for v in vals):
        raise Skip("zero bytes")
    rec.sig(("sort", vgen.describe(lay), asc))
    f = lambda vs: sorted(vs, key=key, reverse=not asc)
    want = [f(v) for v in vals] if deep else f(vals)
    a = ak.Array(lay)
    run(rec, "sort", "ascending=%r" % asc, want, lambda: ak.sort(a, axis=-1, ascending=asc), [lay])


def slicing(rng, rec, i):
    ty, vals, pool, lay = array(rng)
    plain = [strip(ty, v) for v in vals]
    a = ak.Array(lay)
    n = len(vals)
    op = rng.choice(["range", "index", "mask", "concat", "jagged", "flatten", "fields"])
    rec.sig((op, vgen.describe(lay)))
    if op == "range":
        sl = slice(rng.choice([None, 1, -3]), rng.choice([None, 4, -1]), rng.choice([None, 2, -1]))
        run(rec, op, repr(sl), plain[sl], lambda: a[sl], [lay])
    elif op == "index":
        idx = [rng.randrange(-n, n) for _ in range(rng.randint(0, 9))] if n else []
        run(rec, op, repr(idx), [plain[j] for j in idx], lambda: a[np.array(idx, np.int64)], [lay])
    elif op == "mask":
        m = [rng.random() < 0.6 for _ in range(n)]
        run(rec, op, repr(m), [p for p, q in zip(plain, m) if q], lambda: a[np.array(m, np.bool_)], [lay])
    elif op == "concat":
        vals2 = [setval(rng, ty, v, pool) for v in rand_values(rng, ty, CFG)]
        lay2 = make_top(ty, vals2, rng, CFG)
        run(rec, op, "", plain + [strip(ty, v) for v in vals2], lambda: ak.concatenate([a, ak.Array(lay2)]), [lay, lay2])
    elif op == "jagged":
        if ty.kind != "list":
            raise Skip("not a list")
        idx = [[rng.randrange(len(v)) for _ in range(rng.randint(0, 3))] if len(v) else [] for v in plain]
        ia = ak.Array(ak.layout.ListOffsetArray64(ak.layout.Index64(np.cumsum([0] + [len(x) for x in idx])), ak.layout.NumpyArray(np.array([y for x in idx for y in x], np.int64))))
        run(rec, op, repr(idx), [[v[j] for j in x] for v, x in zip(plain, idx)], lambda: a[ia], [lay])
    elif op == "flatten":
        if ty.kind not in ("list", "reg"):
            raise Skip("not a list")
        run(rec, op, "", [x for v in plain for x in v], lambda: ak.flatten(a), [lay])
    else:
        if ty.kind != "rec":
            raise Skip("no record")
        j = rng.randrange(2)
        f = str(j) if ty.fields is None else ty.fields[j]
        run(rec, op, f, [strip(ty.contents[j], v[j]) for v in vals], lambda: a[f], [lay])


# ------------------------------------------------------------------ categories

def distinct(vs):
    out = []
    for v in vs:
        if not any(type(v) is type(w) and v == w for w in out):
            out.append(v)
    return out


def leaves(ty, v, out):
    if v is None:
        return
    if ty.kind in ("list", "reg"):
        for x in v:
            leaves(ty.content, x, out)
    elif ty.kind == "opt":
        leaves(ty.content, v, out)
    else:
        out.append(strip(ty, v))


def catty(rng):
    r = rng.random()
    if r < 0.5:
        t = leaf(rng)
    elif r < 0.85:
        t = Prim(rng.choice(["int64", "float64", "uint8", "int32", "bool"]))
    else:
        t = Rec(rng.choice([["y", "x"], None]), [Prim("int64"), rng.choice([vgen.STR, Prim("float64"), Lst(Prim("int64"))])], None)
    if rng.random() < 0.35:
        t = Opt(t)
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        t = Lst(t) if rng.random() < 0.7 else Reg(t, rng.choice([1, 2]))
    return t


def categorical(rng, rec, i):
    ty = catty(rng)
    ty, vals, pool, lay = array(rng, ty)
    plain = [strip(ty, v) for v in vals]
    a = ak.Array(lay)
    rec.sig(("categorical", vgen.describe(lay)))
    c = run(rec, "to_categorical", str(ty), plain, lambda: ak.to_categorical(a), [lay])
    if c is None:
        return
    if not plain and ak.categories(c) is None or leafkind(ty) == "prim" and has_kind(ty, ["reg"]) and not ak.is_categorical(c) or isinstance(lay, ak.partition.PartitionedArray) and not ak.is_categorical(c):
        rec.count("not encoded")    # multidimensional NumpyArrays are left as they are
        return
    if plain and not ak.is_categorical(c):
        raise Violation("to_categorical: not categorical", show_layout(lay))
    cats = dec(ak.categories(c), "categories")
    used = []
    for v in vals:
        leaves(ty, v, used)
    if any(not any(same(u, x) for x in cats) for u in used):
        raise Violation("categories: a value is not among them", "%s not in %s\n%s" % (short(used), short(cats), show_layout(lay)))
    if len(distinct(cats)) != len(cats):
        raise Violation("categories: repeated", "%s\n%s" % (short(cats), show_layout(lay)))
    st = attempt(lambda: ak.validity_error(c))      # uniqueness of some categories is not implemented
    if st[0] == "ok" and st[1] is not None:
        raise Violation("to_categorical: invalid", "%s\n%s\n%s" % (st[1], show_layout(lay), show_layout(c.layout)))
    run(rec, "from_categorical", "", plain, lambda: ak.from_categorical(c), [lay, c.layout])
    if ak.is_categorical(ak.from_categorical(c)):
        raise Violation("from_categorical: still categorical", show_layout(lay))
    n = len(vals)
    op = rng.choice(["slice", "index", "pickle", "equal", "equal", "ufunc", "concat", "list", "again", "arrow"])
    if op == "slice":
        sl = slice(rng.choice([None, 1, -3]), rng.choice([None, 4, -1]), rng.choice([None, 2, -1]))
        run(rec, "categorical slice", repr(sl), plain[sl], lambda: c[sl], [c.layout])
    elif op == "index":
        idx = [rng.randrange(-n, n) for _ in range(rng.randint(0, 9))] if n else []
        run(rec, "categorical index", repr(idx), [plain[j] for j in idx], lambda: c[np.array(idx, np.int64)], [c.layout])
    elif op == "pickle":
        run(rec, "categorical pickle", "", plain, lambda: pickle.loads(pickle.dumps(c, -1)), [c.layout])
    elif op == "again":
        run(rec, "categorical again", "", plain, lambda: ak.to_categorical(c), [c.layout])
    elif op == "list":
        run(rec, "categorical to_list", "", plain, lambda: raw(ak.to_list(c)), [c.layout])
    elif op == "concat":
        run(rec, "categorical concat", "", plain + plain, lambda: ak.concatenate([c, ak.to_categorical(ak.Array(make_top(ty, vals, rng, CFG)))]), [c.layout])
    elif op == "ufunc":
        if leafkind(ty) != "prim" or ty.kind == "opt" or has_kind(ty, ["opt"]) or leafdtype(ty) == "bool":
            return

        def neg(v):
            return [neg(x) for x in v] if isinstance(v, list) else v + 1
        if leafdtype(ty) in ("uint8",) or any(abs(x) > 1e6 for x in flat(plain)):
            return
        run(rec, "categorical ufunc", "+ 1", [neg(v) for v in plain], lambda: c + 1, [c.layout])
    elif op == "equal":
        if has_kind(ty, ["opt", "rec"]):
            return
        vals2 = [shaped2(rng, ty, v, pool) for v in vals]
        lay2 = make_top(ty, vals2, rng, CFG)
        d = ak.to_categorical(ak.Array(lay2))
        run(rec, "categorical equal", "", [eqmodel(v, w, False) for v, w in zip(plain, [strip(ty, v) for v in vals2])], lambda: c == d, [c.layout, d.layout])


def flat(x):
    if isinstance(x, list):
        return [z for y in x for z in flat(y)]
    return [x]


def leafdtype(ty):
    while ty.kind in ("list", "reg", "opt"):
        ty = ty.content
    return ty.dtype


def shaped2(rng, ty, v, pool):
    if ty.kind in ("list", "reg"):
        return [shaped2(rng, ty.content, x, pool) for x in v]
    if rng.random() < 0.6:
        return v
    return rand_value(rng, ty, CFG) if ty.kind == "prim" else rng.choice(pool[ty.kind])


def run_case(rng, rec, i):
    rng.choice([construct, construct, equality, equality, elements, order, slicing, categorical, categorical])(rng, rec, i)
