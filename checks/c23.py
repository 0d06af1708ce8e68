"""C23 validity: is_valid agrees with an independent validator on sound and corrupted layouts; results are valid."""
from vlib.ops import *
from checks.c01 import layout_op

META = {
    "property": "C23",
    "technique": "runtime monitor: independent layout validator compared with is_valid/validity_error on generated valid, randomly corrupted and operation-produced layouts (ASan/UBSan build)",
    "cases": {"quick": 15000, "thorough": 600000},
    "rule": "a case is a valid random layout, 3 operation results and 4 single-site corruptions (index entries, lengths, tags, masks, parameters, forbidden nestings) of it; distinct = (corruption or operation, layout signature); non-trivial = the verdicts of library and validator were compared",
    "assumptions": ["the validator encodes the published layout rules, e.g. list bounds are not constrained for empty lists, option/indexed nodes may not directly contain option/indexed nodes, unions may not directly contain unions"],
}
CFG = Cfg(empty=True, nan=True, virtual=0.0, partitioned=0.05, biglen=0.02)
AXISOPS = ("combinations", "argcombinations", "pad_none", "local_index", "rpad", "rpad_and_clip", "localindex", "num")
OPTION = (L.IndexedOptionArray32, L.IndexedOptionArray64, L.ByteMaskedArray, L.BitMaskedArray, L.UnmaskedArray)
INDEXED = (L.IndexedArray32, L.IndexedArrayU32, L.IndexedArray64)
LISTOFF = (L.ListOffsetArray32, L.ListOffsetArrayU32, L.ListOffsetArray64)
LIST = (L.ListArray32, L.ListArrayU32, L.ListArray64)
UNION = (L.UnionArray8_32, L.UnionArray8_U32, L.UnionArray8_64)


class Bad(Exception):
    pass


class Undecided(Exception):
    pass


def distinct(x):
    vs = decode(x)
    if any(isinstance(v, float) and v != v for v in vs):
        raise Undecided()       # finding C23-unique-nan
    seen = set()
    for v in vs:
        k = repr(0.0 if v == 0 and isinstance(v, float) else v)
        if k in seen:
            return False
        seen.add(k)
    return True


def bounds(starts, stops, n):
    for i, (a, b) in enumerate(zip(starts, stops)):
        if a != b:
            if a > b or a < 0 or b > n:
                raise Bad("list %d is %d:%d of %d" % (i, a, b, n))


def check(x):
    """Raises Bad unless the layout follows the rules."""
    if isinstance(x, ak.partition.PartitionedArray):
        for p in x.partitions:
            check(p)
        return
    if isinstance(x, L.Record):
        return check(x.array)
    if isinstance(x, L.VirtualArray):
        return check(x.array)
    arr = x.parameter("__array__")
    if arr in ("string", "bytestring"):
        if not isinstance(x, LIST + LISTOFF + (L.RegularArray,)):
            raise Bad("string on " + type(x).__name__)
        c = x.content
        if c.parameter("__array__") != ("char" if arr == "string" else "byte") or not isinstance(c, L.NumpyArray) or np.asarray(c).dtype != np.uint8 or np.asarray(c).ndim != 1:
            raise Bad("string without characters")
    elif arr in ("char", "byte"):
        raise Bad("characters outside of a string")
    elif arr == "categorical":
        if not isinstance(x, INDEXED + (L.IndexedOptionArray32, L.IndexedOptionArray64)):
            raise Bad("categorical on " + type(x).__name__)
        check(x.content)
        if not distinct(x.content):
            raise Bad("categories not unique")
    if isinstance(x, (L.NumpyArray, L.EmptyArray)):
        return
    if isinstance(x, LISTOFF):
        o = np.asarray(x.offsets).tolist()
        if len(o) < 1:
            raise Bad("no offsets")
        bounds(o[:-1], o[1:], len(x.content))
    elif isinstance(x, LIST):
        s, e = np.asarray(x.starts).tolist(), np.asarray(x.stops).tolist()
        if len(e) < len(s):
            raise Bad("fewer stops than starts")
        bounds(s, e, len(x.content))
    elif isinstance(x, INDEXED + OPTION[:2]):
        n = len(x.content)
        for i in np.asarray(x.index).tolist():
            if i >= n or i < 0 and isinstance(x, INDEXED):
                raise Bad("index %d of %d" % (i, n))
    elif isinstance(x, L.ByteMaskedArray):
        if len(x.content) < len(np.asarray(x.mask)):
            raise Bad("content shorter than mask")
    elif isinstance(x, L.BitMaskedArray):
        if len(np.asarray(x.mask)) * 8 < len(x) or len(x.content) < len(x):
            raise Bad("mask or content too short")
    elif isinstance(x, L.RecordArray):
        if any(len(c) < len(x) for c in x.contents):
            raise Bad("field too short")
        for c in x.contents:
            check(c)
        return
    elif isinstance(x, UNION):
        t, k = np.asarray(x.tags).tolist(), np.asarray(x.index).tolist()
        if len(k) < len(t):
            raise Bad("fewer indexes than tags")
        cs = x.contents
        for a, b in zip(t, k):
            if not 0 <= a < len(cs) or not 0 <= b < len(cs[a]):
                raise Bad("tag %d index %d" % (a, b))
        for c in cs:
            if isinstance(c, UNION):
                raise Bad("union in union")
            check(c)
        return
    if isinstance(x, OPTION + INDEXED) and isinstance(x.content, OPTION + INDEXED):
        raise Bad("%s in %s" % (type(x.content).__name__, type(x).__name__))
    if arr not in ("string", "bytestring"):
        check(x.content)


def verdict(x):
    try:
        check(x)
        return None
    except Bad as e:
        return str(e)
    except ValueError as e:
        return "unreadable: " + str(e)


# --- taking layouts apart ----------------------------------------------------------------------
class Node(object):
    def __init__(self, x):
        self.cls, self.par = type(x), dict(x.parameters)
        self.idx, self.kids, self.more = [], [], {}
        if isinstance(x, L.NumpyArray):
            self.data = x
        elif isinstance(x, LISTOFF):
            self.idx, self.kids = [np.array(x.offsets)], [x.content]
        elif isinstance(x, LIST):
            self.idx, self.kids = [np.array(x.starts), np.array(x.stops)], [x.content]
        elif isinstance(x, L.RegularArray):
            self.more, self.kids = {"size": x.size, "n": len(x)}, [x.content]
        elif isinstance(x, INDEXED + OPTION[:2]):
            self.idx, self.kids = [np.array(x.index)], [x.content]
        elif isinstance(x, L.ByteMaskedArray):
            self.idx, self.kids, self.more = [np.array(x.mask)], [x.content], {"vw": x.valid_when}
        elif isinstance(x, L.BitMaskedArray):
            self.idx, self.kids, self.more = [np.array(x.mask)], [x.content], {"vw": x.valid_when, "n": len(x), "lsb": x.lsb_order}
        elif isinstance(x, L.UnmaskedArray):
            self.kids = [x.content]
        elif isinstance(x, L.RecordArray):
            self.kids, self.more = list(x.contents), {"keys": None if x.istuple else x.keys(), "n": len(x)}
        elif isinstance(x, UNION):
            self.idx, self.kids = [np.array(x.tags), np.array(x.index)], list(x.contents)
        elif not isinstance(x, L.EmptyArray):
            raise Skip()
        self.kids = [Node(k) for k in self.kids]

    def all(self):
        yield self
        for k in self.kids:
            for n in k.all():
                yield n

    def build(self):
        k = [x.build() for x in self.kids]
        c, p = self.cls, self.par
        if c is L.NumpyArray:
            return L.NumpyArray(self.data if self.more.get("np") is None else self.more["np"], parameters=p)
        if c is L.EmptyArray:
            return L.EmptyArray(parameters=p)
        ix = [INDEX[{"int8": "8", "uint8": "U8", "int32": "32", "uint32": "U32", "int64": "64"}[i.dtype.name]][0](i) for i in self.idx]
        if c in LISTOFF + LIST + INDEXED + OPTION[:2]:
            return c(*(ix + k), parameters=p)
        if c is L.RegularArray:
            return c(k[0], self.more["size"], self.more["n"], parameters=p)
        if c is L.ByteMaskedArray:
            return c(ix[0], k[0], self.more["vw"], parameters=p)
        if c is L.BitMaskedArray:
            return c(ix[0], k[0], self.more["vw"], self.more["n"], self.more["lsb"], parameters=p)
        if c is L.UnmaskedArray:
            return c(k[0], parameters=p)
        if c is L.RecordArray:
            return c(k, self.more["keys"], self.more["n"], parameters=p)
        return c(ix[0], ix[1], k, parameters=p)


def size_hint(n):
    try:
        return max([len(k.build()) for k in n.kids] + [0])
    except Exception:
        return 5


def corrupt(rng, root):
    """Changes one thing; returns what."""
    nodes = list(root.all())
    n = rng.choice(nodes)
    r = rng.random()
    if n.idx and r < 0.6:
        j = rng.randrange(len(n.idx))
        a = n.idx[j]
        if len(a) and rng.random() < 0.8:
            info = np.iinfo(a.dtype)
            size = size_hint(n)
            i = rng.randrange(len(a))
            v = rng.choice([-1, -2, -100, 0, 1, size, size + 1, size - 1, info.max, info.min, int(a[i]) + 1, int(a[i]) - 1, len(n.kids)])
            a[i] = min(max(v, info.min), info.max)
            return "%s index array %d entry" % (n.cls.__name__, j)
        n.idx[j] = a[:-1] if rng.random() < 0.7 else a[:0]
        return "%s index array %d shortened" % (n.cls.__name__, j)
    if r < 0.7 and "n" in n.more:
        n.more["n"] += rng.choice([-1, 1, 2, 9])
        if n.more["n"] < 0:
            n.more["n"] = 0
        return n.cls.__name__ + " length"
    if r < 0.85:
        # forbidden nestings
        kinds = rng.random()
        try:
            inner = n.build()
        except Exception:
            return "nothing"
        if kinds < 0.5:
            w = rng.choice([lambda c: L.UnmaskedArray(c), lambda c: L.IndexedArray64(L.Index64(np.arange(len(c))), c), lambda c: L.IndexedOptionArray32(L.Index32(np.arange(len(c), dtype=np.int32)), c),
                            lambda c: L.ByteMaskedArray(L.Index8(np.ones(len(c), np.int8)), c, True),
                            lambda c: L.BitMaskedArray(L.IndexU8(np.full((len(c) + 7) // 8, 255, np.uint8)), c, True, len(c), True)])
        else:
            w = lambda c: L.UnionArray8_64(L.Index8(np.zeros(len(c), np.int8)), L.Index64(np.arange(len(c))), [c, L.NumpyArray(np.zeros(1))])
        new = Node(w(inner))
        n.__dict__ = new.__dict__
        return "%s around %s" % (new.cls.__name__, new.kids[0].cls.__name__)
    p = rng.choice(["string", "bytestring", "char", "byte", "categorical", None])
    n.par = dict(n.par)
    if p is None:
        n.par.pop("__array__", None)
    else:
        n.par["__array__"] = p
    return "%s parameter __array__ = %r" % (n.cls.__name__, p)


def has_cat_deep(root):
    for n in root.all():
        if n.par.get("__array__") == "categorical" and n.kids and not (n.kids[0].cls is L.NumpyArray and np.asarray(n.kids[0].data).ndim == 1 or n.kids[0].par.get("__array__") in ("string", "bytestring")):
            return True
    return False


def ask(x):
    """The library's verdict: None if valid, else text."""
    return ak.validity_error(x)


def arrays_in(x):
    if isinstance(x, (ak.Array, ak.Record, L.Content, L.Record, ak.partition.PartitionedArray)):
        yield x
    elif isinstance(x, (list, tuple)):
        for y in x:
            for z in arrays_in(y):
                yield z


def compare(rec, x, key, text):
    lay = getattr(x, "layout", x)
    try:
        mine = verdict(lay)
    except Undecided:
        rec.count("undecided")
        return None
    got = attempt(lambda: ask(x))
    rec.count("judged")
    if got[0] == "err" and "FIXME" in str(got[1]):
        rec.count("unsupported")
        return mine
    if got[0] == "err":
        raise Violation(key + ": validity_error raised", "%s: %s\n%s\n%s" % (type(got[1]).__name__, str(got[1])[:500], text, show_layout(lay)))
    theirs = got[1]
    if (theirs is None) != (mine is None):
        raise Violation("%s: library says %s, rules say %s" % (key, "valid" if theirs is None else "invalid", "valid" if mine is None else "invalid"),
                        "library: %s\nrules: %s\n%s\n%s" % (theirs, mine, text, show_layout(lay)))
    if isinstance(x, ak.Array) and ak.is_valid(x) != (theirs is None):
        raise Violation("is_valid contradicts validity_error", show_layout(lay))
    return mine


def run_case(rng, rec, i):
    ty = rand_type(rng, CFG)
    vals = rand_values(rng, ty, CFG)
    lay = make_top(ty, vals, rng, CFG)
    arr = ak.Array(lay)
    sig = describe(lay)
    if compare(rec, arr, "generated array", "") is not None:
        raise Violation("generator produced an invalid layout", show_layout(lay))
    partitioned = isinstance(lay, ak.partition.PartitionedArray)
    for _ in range(3):
        if rng.random() < 0.3 and not partitioned:
            key, call = layout_op(rng, lay)
            key, what = "layout." + key, ""
            if key in ("layout.setitem_field", "layout.merge_as_union", "layout.simplify", "layout.carry", "layout.jagged", "layout.broadcast_tooffsets64", "layout.fillna", "layout.numbers_to_type", "layout.project"):
                continue
            if key[7:] in AXISOPS and has_kind(ty, ("rec",)):
                continue        # finding C03-axis-records
        else:
            op = rand_op(rng, ty, vals, CFG)
            if op.name == "run_lengths" and has_kind(ty, ("rec", "uni")):
                continue        # finding C23-run-lengths
            if op.name in AXISOPS and has_kind(ty, ("rec",)) and (op.axis or 0) < 0:
                continue        # finding C03-axis-records
            args = [arr] + [ak.Array(make_top(t, v, rng, CFG)) for t, v in op.extra]
            key, what, call = op.name, op.what, lambda: op.fn(*args)
        rec.step("%s %s" % (key, what))
        got = attempt(call)
        rec.count("op:" + key)
        if got[0] == "err":
            continue
        rec.sig(key, sig)
        for x in arrays_in(got[1]):
            bad = compare(rec, x, key, what)
            if bad in ("characters outside of a string", "string without characters"):
                rec.count("inside-strings")     # a single string is its characters; finding C25-axis-in-strings
            elif bad is not None:
                raise Violation(key + ": the result is invalid", "%s\n%s: %s\nvalues %r %s\nresult %s\ninput %s" % (what, key, ask(x), ty, short([strip(ty, v) for v in vals]), show_layout(getattr(x, "layout", x), 2500), show_layout(lay, 2500)))
            rec.count("valid-results")
    if partitioned:
        return
    for _ in range(4):
        root = Node(lay)
        why = corrupt(rng, root)
        if rng.random() < 0.1:
            why += " and " + corrupt(rng, root)
        if has_cat_deep(root):
            continue        # finding C01-is-unique-nested
        rec.step("corrupt " + why)
        rec.sig("corrupt", re.sub("entry.*", "", why), sig)
        got = attempt(root.build)
        if got[0] == "err":
            rec.count("rejected-by-constructor")
            continue
        bad = compare(rec, got[1], "corrupted layout", why)
        rec.count("corrupt-invalid" if bad else "corrupt-still-valid")
        if bad:
            g = attempt(lambda: ak.Array(got[1], check_valid=True))
            if g[0] == "ok":
                raise Violation("check_valid=True accepts an invalid layout", why + "\n" + show_layout(got[1]))
