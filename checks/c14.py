"""C14 Arrow and Parquet conversions preserve the data."""
import os
from vlib.common import *
from vlib import vgen

META = {
    "property": "C14",
    "technique": "runtime monitor: arrays in random layouts taken to Arrow (validated by Arrow itself and compared with what Arrow lists) and back, through Parquet files in a scratch folder (whole, by columns, by row groups, lazily) and back; Arrow arrays built by Arrow, sliced, chunked and dictionary-encoded, read and compared with what Arrow lists; under ASan/UBSan",
    "cases": {"quick": 16000, "thorough": 250000},
    "rule": "a case is one array in a random layout converted to Arrow and back or written to Parquet and read back, or one Arrow array made by Arrow with random slices and read; distinct = (form or Arrow type, route); non-trivial = data were compared",
    "assumptions": ["record types without fields, tuples and unions are not converted", "dates are compared as whole numbers of their unit"],
}
CFG = Cfg(prims=["bool", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64"],
          nan=True, empty=False, unions=0, tuples=0, virtual=0.08, partitioned=0.08, maxdepth=4, zero_size_regular=False, bytestrings=0.5)


def norec(ty):
    """Without empty records (Arrow structs of no field have no length)."""
    if ty.kind == "rec":
        return bool(ty.contents) and all(norec(c) for c in ty.contents)
    if ty.kind in ("list", "reg", "opt"):
        return norec(ty.content)
    return ty.kind != "unk"


def fromarrow(x):
    """Python values as Arrow lists them."""
    if isinstance(x, dict):
        return {k: fromarrow(v) for k, v in x.items()}
    if isinstance(x, list):
        return [fromarrow(v) for v in x]
    return x


def is_tensor(pa, x):
    return isinstance(x, pa.lib.Tensor)


def arrow_case(rng, rec, pa):
    ty = rand_type(rng, CFG, 0)
    if not norec(ty) or excluded(ty):
        raise Skip()
    vals = rand_values(rng, ty, CFG)
    if all_missing(ty, vals):
        raise Skip()
    lay = make_top(ty, vals, rng, CFG)
    if isinstance(lay, ak.partition.PartitionedArray) and has_opt(ty, ("rec", "list", "reg")):
        raise Skip()        # C14-option-records, partition by partition
    plain = [strip(ty, v) for v in vals]
    kw = {}
    for k in ("list_to32", "string_to32", "bytestring_to32"):
        if rng.random() < 0.4:
            kw[k] = rng.random() < 0.5
    kw["allow_tensor"] = False      # C14-tensor
    if isinstance(lay, ak.partition.PartitionedArray):
        kw.update({"list_to32": True, "string_to32": True, "bytestring_to32": True})    # C14-partitions
    rec.sig((describe(lay), "arrow", str(kw)))
    what = "%s\n%s\n%s\n%s" % (ty, kw, short(plain, 700), show_layout(lay))
    rec.step("to_arrow " + what)
    try:
        out = ak.to_arrow(ak.Array(lay), **kw)
    except Exception as e:
        raise Violation("to_arrow refused: %s" % type(e).__name__, "%s\n%s" % (str(e)[:300], what))
    if is_tensor(pa, out):
        if not same(plain, out.to_numpy().tolist()):
            raise Violation("to_arrow: wrong tensor", what)
        rec.count("tensors")
    else:
        try:
            out.validate(full=True)
        except pa.lib.ArrowInvalid as e:
            raise Violation("to_arrow: invalid Arrow array", "%s\n%s" % (str(e)[:300], what))
        if not (isinstance(out, pa.lib.ChunkedArray) and False):
            got = fromarrow(out.to_pylist())
            if not same(plain, got):
                raise Violation("to_arrow: wrong data", "expected %s\n     got %s\n%s" % (short(plain, 700), short(got, 700), what))
    rec.step("from_arrow")
    try:
        back = ak.from_arrow(out)
    except Exception as e:
        raise Violation("to_arrow and back refused: %s" % type(e).__name__, "%s\n%s" % (str(e)[:300], what))
    got = dec(back, "from_arrow")
    if not same(plain, got):
        raise Violation("to_arrow and back: wrong data", "expected %s\n     got %s\n%s" % (short(plain, 700), short(got, 700), what))
    rec.count("arrow round trips")


def excluded(ty):
    return False


def nodes(ty, vals):
    """(type, values reached there) of every node."""
    yield ty, vals
    k = ty.kind
    if k == "opt":
        for x in nodes(ty.content, [v for v in vals if v is not None]):
            yield x
    elif k in ("list", "reg"):
        for x in nodes(ty.content, [y for x in vals for y in x]):
            yield x
    elif k == "rec":
        for j, c in enumerate(ty.contents):
            for x in nodes(c, [v[j] for v in vals]):
                yield x


def all_missing(ty, vals):
    """Some optional records or lists are all missing (C14-option-records)."""
    return any(t.kind == "opt" and t.content.kind in ("rec", "list", "reg") and all(v is None for v in vs) for t, vs in nodes(ty, vals))


def missing_lists(ty, vals):
    """Some lists are missing (C14-masked-lists)."""
    return any(t.kind == "opt" and (has_kind(t.content, "list") or has_kind(t.content, "reg")) and any(v is None for v in vs) for t, vs in nodes(ty, vals))


def has_opt(ty, kinds):
    if ty.kind == "opt" and ty.content.kind in kinds:
        return True
    kids = [ty.content] if ty.kind in ("list", "reg", "opt") else ty.contents if ty.kind == "rec" else []
    return any(has_opt(k, kinds) for k in kids)


def list_of_opt(ty):
    if ty.kind in ("list", "reg") and (has_kind(ty.content, "opt") or has_kind(ty.content, "rec")):
        return True
    kids = [ty.content] if ty.kind in ("list", "reg", "opt") else ty.contents if ty.kind == "rec" else []
    return any(list_of_opt(k) for k in kids)


def parquet_case(rng, rec, pa):
    names = rng.sample(["x", "y", "z", "b", "a"], rng.choice([1, 2, 3]))
    cfg = CFG.but(partitioned=0.3)
    record = rng.random() < 0.7
    if record:
        ty = Rec(names, [rand_type(rng, cfg, 1) for _ in names])
    else:
        ty = rand_type(rng, cfg, 0)
    if not norec(ty) or excluded(ty):
        raise Skip()
    vals = rand_values(rng, ty, cfg, rng.choice([1, 2, 3, 5, 9]))
    if all_missing(ty, vals) or missing_lists(ty, vals):
        raise Skip()
    lay = make_top(ty, vals, rng, cfg)
    if isinstance(lay, ak.partition.PartitionedArray) and has_opt(ty, ("rec", "list", "reg")):
        raise Skip()        # C14-option-records, partition by partition
    plain = [strip(ty, v) for v in vals]
    path = os.path.join(os.environ["VERIF_TMP"], "p%d.parquet" % os.getpid())
    kw = {}
    if rng.random() < 0.3 or isinstance(lay, ak.partition.PartitionedArray):
        kw["list_to32"] = True
    rec.sig((describe(lay), "parquet", str(kw)))
    what = "%s\n%s\n%s\n%s" % (ty, kw, short(plain, 700), show_layout(lay))
    rec.step("to_parquet " + what)
    try:
        ak.to_parquet(ak.Array(lay), path, **kw)
    except Exception as e:
        raise Violation("to_parquet refused: %s" % type(e).__name__, "%s\n%s" % (str(e)[:300], what))
    groups = [len(p) for p in lay.partitions] if isinstance(lay, ak.partition.PartitionedArray) else [len(vals)]
    ways = [("whole", {}, None, None), ("lazy", {"lazy": True}, None, None)]
    if record:
        cols = rng.sample(names, rng.randint(1, len(names)))
        ways.append(("columns", {"columns": cols}, cols, None))
        ways.append(("columns lazily", {"columns": cols, "lazy": True}, cols, None))
    if len(groups) > 1:
        g = rng.randrange(len(groups))
        ways.append(("row group", {"row_groups": g}, None, [g]))
        gs = sorted(rng.sample(range(len(groups)), rng.randint(1, len(groups))))
        ways.append(("row groups", {"row_groups": gs}, None, gs))
    rng.shuffle(ways)
    try:
        for name, opts, cols, gs in ways[:3]:
            if "lazy" in opts and (list_of_opt(ty) or has_opt(ty, ("rec",))):
                continue        # C14-lazy-lists
            want = plain
            if gs is not None:
                starts = [sum(groups[:i]) for i in range(len(groups))]
                want = [v for g in gs for v in plain[starts[g]:starts[g] + groups[g]]]
            if cols is not None:
                want = [{k: v[k] for k in names if k in cols} for v in want]
            rec.step("from_parquet %s" % name)
            try:
                got = ak.from_parquet(path, **opts)
                got = dec(got, "from_parquet %s" % name)
            except Violation:
                raise
            except Exception as e:
                raise Violation("from_parquet refused (%s): %s" % (name, type(e).__name__), "%s\n%s\n%s" % (str(e)[:300], opts, what))
            if cols is not None:
                got = [{k: v[k] for k in names if k in v} if isinstance(v, dict) else v for v in got]
            if not same(want, got):
                raise Violation("from_parquet: wrong data (%s)" % name, "%s\nexpected %s\n     got %s\n%s" % (opts, short(want, 700), short(got, 700), what))
            rec.count("parquet " + name)
    finally:
        os.remove(path)


def rand_arrow_type(rng, pa, depth=0):
    r = rng.random()
    if depth >= 3 or r < 0.4:
        return rng.choice([pa.bool_(), pa.int8(), pa.uint8(), pa.int16(), pa.int32(), pa.uint32(), pa.int64(), pa.uint64(), pa.float32(), pa.float64(),
                           pa.string(), pa.large_string(), pa.binary(), pa.large_binary()])
    if r < 0.6:
        c = rand_arrow_type(rng, pa, depth + 1)
        return rng.choice([pa.list_, pa.large_list])(pa.field("item", c, nullable=rng.random() < 0.7))
    if r < 0.7:
        c = rand_arrow_type(rng, pa, depth + 1)
        return pa.list_(pa.field("item", c, nullable=rng.random() < 0.7), rng.choice([1, 2, 3]))
    if r < 0.8 and depth < 2:
        return pa.dictionary(rng.choice([pa.int8(), pa.int32(), pa.int32(), pa.int64()]), rng.choice([pa.string(), pa.int64(), pa.float64()]))
    names = rng.sample(["x", "y", "z", "b", "a"], rng.choice([1, 2, 3]))
    return pa.struct([pa.field(n, rand_arrow_type(rng, pa, depth + 1), nullable=rng.random() < 0.7) for n in names])


def arrow_value(rng, pa, t, nullable):
    if nullable and rng.random() < 0.2:
        return None
    ts = pa.types
    if ts.is_boolean(t):
        return rng.random() < 0.5
    if ts.is_integer(t):
        return rng.randint(0, 100)
    if ts.is_floating(t):
        return rng.choice([0.0, 1.5, -2.25, float("inf")])
    if ts.is_string(t) or ts.is_large_string(t):
        return "".join(rng.choice(["a", "é", "😀"]) for _ in range(rng.randint(0, 3)))
    if ts.is_binary(t) or ts.is_large_binary(t):
        return bytes(rng.randrange(256) for _ in range(rng.randint(0, 3)))
    if ts.is_fixed_size_list(t):
        return [arrow_value(rng, pa, t.value_type, t.value_field.nullable) for _ in range(t.list_size)]
    if ts.is_list(t) or ts.is_large_list(t):
        return [arrow_value(rng, pa, t.value_type, t.value_field.nullable) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
    if ts.is_dictionary(t):
        return rng.choice(["a", "bb", ""]) if ts.is_string(t.value_type) else rng.choice([1, 2, 3])
    return {t[i].name: arrow_value(rng, pa, t[i].type, t[i].nullable) for i in range(t.num_fields)}


def build(rng, pa, t, vals):
    if pa.types.is_dictionary(t):
        return pa.array(vals, t.value_type).dictionary_encode().cast(t)
    return pa.array(vals, t)


def has_dict(pa, t, top=True):
    if pa.types.is_dictionary(t):
        return not top
    return any(has_dict(pa, t.field(i).type, False) for i in range(t.num_fields)) if t.num_fields else False


def native_case(rng, rec, pa):
    t = rand_arrow_type(rng, pa)
    n = rng.choice([1, 2, 3, 5, 9, 20])
    nullable = rng.random() < 0.7
    vals = [arrow_value(rng, pa, t, nullable) for _ in range(n)]
    try:
        if has_dict(pa, t):
            raise Skip()
        a = build(rng, pa, t, vals)
    except (pa.lib.ArrowNotImplementedError, pa.lib.ArrowInvalid):
        raise Skip()
    how = []

    def cut(a):
        for _ in range(rng.choice([0, 1, 1, 2])):
            s = rng.randint(0, len(a))
            k = rng.randint(0, len(a) - s)
            if rng.random() < 0.8:
                k = max(k, min(1, len(a) - s))
            a = a.slice(s, k)
            how.append((s, k))
        return a
    kind = rng.choice(["array", "array", "chunked", "batch", "table"])
    if kind == "array":
        x = cut(a)
        want = x.to_pylist()
    elif kind == "chunked":
        cs = [cut(a) for _ in range(rng.choice([1, 2, 3]))]
        x = pa.chunked_array(cs, type=t)
        if rng.random() < 0.5:
            x = cut(x)
        want = x.to_pylist()
    else:
        b = pa.array([arrow_value(rng, pa, pa.int64(), True) for _ in range(n)], pa.int64())
        x = pa.RecordBatch.from_arrays([a, b], ["u", "v"])
        if rng.random() < 0.7:
            x = cut(x)
        if kind == "table":
            bs = [x] + ([cut(x)] if rng.random() < 0.5 else [])
            x = pa.Table.from_batches(bs)
            if rng.random() < 0.4:
                x = cut(x)
        want = x.to_pylist()
    what = "%s of %s slices %s\n%s" % (kind, t, how, short(want, 800))
    rec.sig((kind, str(t), str(how)))
    rec.step("from_arrow " + what)
    if len(want) == 0:
        rec.count("empty Arrow")
        if kind != "array":
            raise Skip()
    try:
        arr = ak.from_arrow(x)
    except Exception as e:
        raise Violation("from_arrow refused: %s" % type(e).__name__, "%s\n%s" % (str(e)[:300], what))
    got = dec(arr, "from_arrow")
    if not same(want, got):
        raise Violation("from_arrow: wrong data", "expected %s\n     got %s\n%s\n%s" % (short(want, 700), short(got, 700), what, show_layout(arr.layout)))
    rec.count("native " + kind)


def temporal_case(rng, rec, pa):
    """Dates, times and durations: the count of the unit since midnight, the epoch or nothing."""
    kinds = [(pa.date32(), "M8[D]"), (pa.date64(), "M8[ms]")] + [(pa.time32(u), "M8[%s]" % u) for u in ("s", "ms")] + [(pa.time64(u), "M8[%s]" % u) for u in ("us", "ns")]
    kinds += [(f(u), "%s[%s]" % (c, u)) for f, c in ((pa.timestamp, "M8"), (pa.duration, "m8")) for u in ("s", "ms", "us", "ns")]
    t, dt = rng.choice(kinds)
    n = rng.choice([0, 1, 2, 3, 5, 9, 17])
    null = rng.choice([0.0, 0.3])
    ints = [None if rng.random() < null else rng.randint(0, 86399) for _ in range(n)]
    unit = dt[3:-1]
    mk = np.datetime64 if dt[0] == "M" else np.timedelta64
    want = [None if x is None else mk(x, unit) for x in ints]
    x = pa.array(ints, pa.int32() if t.bit_width == 32 else pa.int64()).view(t)
    how = rng.choice(["flat", "flat", "list", "struct", "chunked"])
    a = rng.randint(0, n)
    b = rng.randint(a, n)
    if how == "flat":
        x, want = x[a:b], want[a:b]
    elif how == "list":
        x, want = pa.ListArray.from_arrays(pa.array([0, a, b, n], pa.int32()), x), [want[:a], want[a:b], want[b:]]
        k = rng.randint(0, 2)
        x, want = x[k:], want[k:]
    elif how == "struct":
        x, want = pa.StructArray.from_arrays([x, pa.array(list(range(n)), pa.int64())], ["x", "y"])[a:b], [{"x": v, "y": j} for j, v in enumerate(want)][a:b]
    else:
        x, want = pa.chunked_array([x, x[a:b]]), want + want[a:b]
    what = "%s %s %s" % (t, how, short(want, 500))
    rec.step("from_arrow " + what)
    rec.sig(("temporal", str(t), how, null))
    if len(want) == 0:
        raise Skip()
    got = ak.from_arrow(x)
    got = dec(got, "from_arrow")
    if not same(want, got):
        raise Violation("from_arrow of temporal types: wrong data", "got %s\n%s" % (short(got, 500), what))
    rec.count("temporal " + how)


def run_case(rng, rec, i):
    import pyarrow as pa
    r = rng.random()
    if r < 0.06:
        return temporal_case(rng, rec, pa)
    r = rng.random()
    if r < 0.4:
        arrow_case(rng, rec, pa)
    elif r < 0.55:
        parquet_case(rng, rec, pa)
    else:
        native_case(rng, rec, pa)
