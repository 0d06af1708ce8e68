"""C13 Buffers, pickles and copies: round trips are exact, damaged containers are refused, deep copies are independent."""
import copy
import json
import pickle
from vlib.common import *
from vlib import vgen

META = {
    "property": "C13",
    "technique": "runtime monitor: round-trip oracle on values and types through to_buffers/from_buffers, pickle and copy, with injected faults in the buffer container (missing, truncated, oversized, misaligned buffers) and overwriting of the original after a deep copy, under ASan/UBSan",
    "cases": {"quick": 16000, "thorough": 900000},
    "rule": "a case is one array (random layout, possibly partitioned or lazy, random names and parameters) taken through one route: buffers in one of several container and form representations (eagerly or lazily), a container with one damaged buffer, pickling with any protocol (whole, sliced or one record), or copying followed by overwriting every buffer of the original; distinct = (form, route, variant); non-trivial = the result was compared or the refusal confirmed",
    "assumptions": ["option/indexed nodes are not directly nested"],
}
CFG = Cfg(huge=0.15, prims=vgen.ALLPRIMS, empty=True, nan=True, virtual=0.12, partitioned=0.15, maxdepth=5, names=["Point", "Q"])


def typestr(a):
    try:
        return str(ak.type(a))
    except ValueError:
        if isinstance(a.layout, ak.partition.PartitionedArray):
            return None             # the type of partitions that differ is not defined
        raise


def check_same(rec, key, what, plain, tystr, got, lay):
    def witness(s):
        return "%s\n%s\n%s" % (what, s, show_layout(lay))
    val = dec(got, key)
    if not same(plain, val):
        raise Violation(key + ": wrong values", witness("expected %s\n     got %s" % (short(plain), short(val))))
    if tystr is not None and str(ak.type(got)) != tystr:
        raise Violation(key + ": wrong type", witness("expected %s\n     got %s" % (tystr, ak.type(got))))
    rec.count("agreed:" + key)


class RawStore(dict):
    """A container that keeps only bytes, as a file or database would."""
    def __init__(self, conv):
        self.conv = conv

    def __setitem__(self, k, v):
        dict.__setitem__(self, k, self.conv(v))


def misaligned(v):
    raw = np.ascontiguousarray(v).tobytes()
    b = np.empty(len(raw) + 1, np.uint8)
    b[1:] = np.frombuffer(raw, np.uint8)
    return b[1:]


CONV = {"numpy": None, "bytes": lambda v: np.ascontiguousarray(v).tobytes(), "bytearray": lambda v: bytearray(np.ascontiguousarray(v).tobytes()),
        "u8": lambda v: np.frombuffer(np.ascontiguousarray(v).tobytes(), np.uint8),
        "copy": lambda v: np.array(v)}


def buffers(rng, rec, ty, vals, lay):
    plain = [strip(ty, v) for v in vals]
    arr = ak.Array(lay)
    tystr = typestr(arr)
    conv = rng.choice(list(CONV))
    kw = {}
    if rng.random() < 0.3:
        kw["partition_start"] = rng.choice([0, 1, 7])
    if rng.random() < 0.3:
        kw["key_format"] = rng.choice(["{partition}/{form_key}/{attribute}", "x{form_key}-{attribute}-{partition}"])
    kw2 = dict(kw)
    if rng.random() < 0.3:
        kw["form_key"] = rng.choice(["n{id}", "a-{id}-b"])
    what = "to_buffers(%r) into %s" % (kw, conv)
    rec.step("%s of %s" % (what, ty))
    store = {} if CONV[conv] is None else RawStore(CONV[conv])
    got = attempt(lambda: ak.to_buffers(arr, store, **kw))
    key = "buffers"
    if got[0] == "err":
        if different_forms(lay) and isinstance(got[1], ValueError):
            rec.count("refused: partitions differ")
            return None
        raise Violation(key + ": to_buffers raised", "%s\n%s: %s\n%s" % (what, type(got[1]).__name__, got[1], show_layout(lay)))
    form, length, cont = got[1]
    n = sum(length) if isinstance(length, list) else length
    if n != len(vals):
        raise Violation(key + ": wrong length", "%s\n%r for %d items\n%s" % (what, length, len(vals), show_layout(lay)))
    fk = rng.choice(["form", "json", "dict"])
    f2 = form if fk == "form" else form.tojson(False, True) if fk == "json" else json.loads(form.tojson(False, True))
    lazy = rng.random() < 0.3
    if lazy:
        kw2["lazy"] = True
        kw2["lazy_cache"] = rng.choice(["new", None])
    what += ", from_buffers(%s, %r)" % (fk, kw2)
    rec.step(what)
    out = attempt(lambda: ak.from_buffers(f2, length, cont, **kw2))
    if out[0] == "err":
        raise Violation(key + ": from_buffers raised", "%s\n%s: %s\n%s" % (what, type(out[1]).__name__, out[1], show_layout(lay)))
    if len(out[1]) != len(vals):
        raise Violation(key + ": wrong length", "%s\n%r for %d items\n%s" % (what, len(out[1]), len(vals), show_layout(lay)))
    check_same(rec, key, what, plain, tystr, out[1], lay)
    if lazy and rng.random() < 0.5:
        again = pickle.loads(pickle.dumps(out[1]))
        check_same(rec, "pickled lazy array", what, plain, tystr, again, lay)
    rec.sig("buffers", vgen.describe(lay), conv, fk, lazy)
    return form, length, cont, kw2, conv


def different_forms(lay):
    return isinstance(lay, ak.partition.PartitionedArray)


def faults(rng, rec, ty, vals, lay):
    """One buffer missing, too short, too long or odd-sized: refused, or else the same data."""
    plain = [strip(ty, v) for v in vals]
    arr = ak.Array(lay)
    got = attempt(lambda: ak.to_buffers(arr))
    if got[0] == "err":
        raise Skip()
    form, length, cont = got[1]
    keys = sorted(k for k in cont)
    if not keys:
        raise Skip()
    k = rng.choice(keys)
    raw = np.ascontiguousarray(cont[k]).tobytes()
    kind = rng.choice(["missing", "short", "short", "one item short", "long", "odd", "empty", "length"])
    itemsize = max(1, np.asarray(cont[k]).dtype.itemsize)
    mustraise = False
    if kind == "missing":
        cont = {x: y for x, y in cont.items() if x != k}
        mustraise = "EmptyArray" not in repr(form)       # (these write an empty buffer that is never needed)
    elif kind == "short":
        cont[k] = heap(raw[: rng.randrange(len(raw)) // itemsize * itemsize if raw else 0])
    elif kind == "one item short":
        cont[k] = heap(raw[: max(0, len(raw) - itemsize)])
    elif kind == "long" and not k.endswith("data"):
        raise Skip()            # would describe data that are not there
    elif kind == "long":
        cont[k] = heap(raw + b"\x7f" * (itemsize * rng.randint(1, 3)))
    elif kind == "odd":
        cont[k] = heap(raw[: rng.randrange(len(raw))] if raw else b"")
    elif kind == "empty":
        cont[k] = heap(b"")
    else:
        if isinstance(length, list):
            raise Skip()
        length = length + rng.randint(1, 3)
    lazy = rng.random() < 0.25
    what = "from_buffers(lazy=%r) with buffer %s %s (%d bytes)" % (lazy, k, kind, len(raw))
    rec.step(what + " " + repr(form)[:1500])

    def fn():
        out = ak.from_buffers(form, length, cont, lazy=lazy, lazy_cache=None)
        rec.step(what + " reading")
        return out, decode(out)
    res = attempt(fn)
    rec.count("fault:" + kind)
    if res[0] == "err":
        if isinstance(res[1], (SystemError, MemoryError)):
            raise Violation("damaged container: " + type(res[1]).__name__, "%s\n%s\n%s" % (what, res[1], show_layout(lay)))
        rec.count("refused")
        rec.sig("refused", vgen.describe(lay), kind)
        return
    if mustraise:
        raise Violation("missing buffer not noticed", "%s\n%s" % (what, show_layout(lay)))
    out, val = res[1]
    if kind == "length":
        if val[:len(plain)] != plain and not same(val[:len(plain)], plain):
            raise Violation("longer length: wrong values", "%s\nexpected %s\n     got %s\n%s" % (what, short(plain), short(val), show_layout(lay)))
        rec.count("unreached data")
        return
    if kind == "long":
        val = val[:len(plain)] if not isinstance(lay, ak.partition.PartitionedArray) else val
    if kind != "long" and not same(val, plain):
        raise Violation("damaged container accepted with different data", "%s\nexpected %s\n     got %s\n%s" % (what, short(plain), short(val), show_layout(lay)))
    rec.count("harmless")
    rec.sig("harmless", vgen.describe(lay), kind)


def heap(b):
    """A buffer of exactly these bytes, so that ASan sees reads beyond its end."""
    a = np.empty(len(b), np.uint8)
    a[:] = np.frombuffer(b, np.uint8)
    return a


def pickles(rng, rec, ty, vals, lay):
    plain = [strip(ty, v) for v in vals]
    arr = ak.Array(lay)
    proto = rng.choice([2, 3, 4, 5])
    what = "pickle protocol %d" % proto
    mode = rng.choice(["whole", "whole", "slice", "record"])
    tystr = typestr(arr)
    obj = arr
    if mode == "slice" and vals:
        a = rng.randint(0, len(vals))
        b = rng.randint(a, len(vals))
        obj, plain, what, tystr = arr[a:b], plain[a:b], what + " of [%d:%d]" % (a, b), typestr(arr[a:b])
    elif mode == "record" and vals and ty.kind == "rec":
        i = rng.randrange(len(vals))
        obj, plain, what, tystr = arr[i], plain[i], what + " of record %d" % i, typestr(arr[i])
    else:
        mode = "whole"
    rec.step(what + " of " + repr(ty))
    got = attempt(lambda: pickle.loads(pickle.dumps(obj, proto)))
    if got[0] == "err":
        if different_forms(lay) and isinstance(got[1], ValueError):
            rec.count("refused: partitions differ")
            return
        raise Violation("pickle: raised", "%s\n%s: %s\n%s" % (what, type(got[1]).__name__, got[1], show_layout(lay)))
    if type(obj) is not ak.Array and type(got[1]) is not type(obj):
        raise Violation("pickle: wrong class", "%s\n%s %s" % (what, type(obj), type(got[1])))
    check_same(rec, "pickle", what, plain, tystr, got[1], lay)
    rec.sig("pickle", vgen.describe(lay), mode)


def copies(rng, rec, ty, vals, cfg):
    cfg = cfg.but(virtual=0.0)
    vgen.REGISTRY = []
    try:
        lay = vgen.make_top(ty, vals, rng, cfg)
        bufs = vgen.REGISTRY
    finally:
        vgen.REGISTRY = None
    plain = [strip(ty, v) for v in vals]
    arr = ak.Array(lay)
    how = rng.choice(["ak.copy", "np.copy", "copy.deepcopy", "deep_copy", "copy.copy", "pickle", "packed"])
    rec.step(how + " of " + repr(ty))
    key = "copy"
    obj, tystr = arr, typestr(arr)
    if ty.kind == "rec" and vals and rng.random() < 0.3 and how in ("ak.copy", "copy.deepcopy", "copy.copy"):
        i = rng.randrange(len(vals))
        obj, plain, tystr = arr[i], plain[i], typestr(arr[i])
    fns = {"ak.copy": lambda: ak.copy(obj), "np.copy": lambda: np.copy(obj), "copy.deepcopy": lambda: copy.deepcopy(obj), "deep_copy": lambda: ak.Array(obj.layout.deep_copy()),
           "copy.copy": lambda: copy.copy(obj), "pickle": lambda: pickle.loads(pickle.dumps(obj)), "packed": lambda: ak.packed(obj)}
    got = attempt(fns[how])
    if got[0] == "err":
        if how == "pickle" and different_forms(lay) and isinstance(got[1], ValueError):
            return
        raise Violation("copy: raised", "%s\n%s: %s\n%s" % (how, type(got[1]).__name__, got[1], show_layout(lay)))
    if how == "np.copy" and not isinstance(got[1], (ak.Array, ak.Record)):
        raise Violation("np.copy: wrong class", "%s\n%s" % (type(got[1]), show_layout(lay)))
    check_same(rec, how, how, plain, tystr, got[1], lay)
    if how in ("ak.copy", "np.copy", "copy.deepcopy", "deep_copy"):
        n = 0
        for b in bufs:
            if b.nbytes and b.flags.writeable:
                if b.flags.c_contiguous:
                    v = b.reshape(-1).view(np.uint8)
                    v[...] = v ^ (1 if b.dtype == bool else 0x55)
                    n += 1
        rec.count("overwritten buffers", n)
        rec.step(how + " after overwriting the original")
        val = dec(got[1], "copy")
        if not same(plain, val):
            raise Violation("deep copy changed when the original was overwritten", "%s\nexpected %s\n     got %s" % (how, short(plain), short(val)))
        rec.sig("copy", how, repr(ty)[:80])


def run_case(rng, rec, i):
    cfg = CFG
    ty = vgen.rand_type(rng, cfg)
    vals = vgen.rand_values(rng, ty, cfg)
    r = rng.random()
    if r >= 0.8:
        return copies(rng, rec, ty, vals, cfg)
    lay = vgen.make_top(ty, vals, rng, cfg)
    if r < 0.3:
        buffers(rng, rec, ty, vals, lay)
    elif r < 0.55:
        faults(rng, rec, ty, vals, lay)
    else:
        pickles(rng, rec, ty, vals, lay)
    rec.sample(show_layout(lay, 200))
