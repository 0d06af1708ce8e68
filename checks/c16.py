"""C16 lazy arrays: random nodes of a layout become generators; every operation must see the same data whatever the cache does."""
from collections import OrderedDict
from collections.abc import MutableMapping
from vlib.ops import *
from vlib.common import has_kind
from checks.c03 import comparable, LOOSE

META = {
    "property": "C16",
    "technique": "runtime monitor: differential oracle (lazy vs materialised nodes of the same layout) over randomised operation sequences on the ASan/UBSan build, with counting generators and caches that keep, evict or drop entries; generator-call counters and contradiction checks are online assertions",
    "cases": {"quick": 9000, "thorough": 400000},
    "rule": "a case is one random layout, a copy in which random nodes are generators (form/length declared or not, keep/evict/drop/no cache, also from_buffers(lazy=True)) and a sequence of 3 operations on both, with the number of generator calls watched; distinct = (operation, cache policy, lazy layout signature); non-trivial = a generator ran",
    "assumptions": ["generators are pure functions", "a lazy array's generator may run again when its cache does not keep the entry"],
}
CFG = Cfg(empty=False, nan=True, biglen=0.03)


class Evict(MutableMapping):
    """Keeps at most `size` entries."""
    def __init__(self, size):
        self.size, self.d = size, OrderedDict()

    def __getitem__(self, k):
        return self.d[k]

    def __setitem__(self, k, v):
        self.d[k] = v
        while len(self.d) > self.size:
            self.d.popitem(last=False)

    def __delitem__(self, k):
        del self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


class Watch(object):
    """One generator: returns its array and counts."""
    def __init__(self, inner, form, length):
        self.inner, self.n, self.form, self.length = inner, 0, form, length

    def __call__(self):
        self.n += 1
        return self.inner


def lazy(lay, rng, p, caches, watches):
    """The same layout with random nodes replaced by generators of them."""
    inner = rebuild(lay, rng, p, caches, watches)
    if rng.random() >= p or isinstance(lay, L.EmptyArray):
        return inner
    form = length = None
    if rng.random() < 0.6:
        form = lay.form
    if rng.random() < 0.6:
        length = len(lay)
    w = Watch(inner, form, length)
    watches.append(w)
    gen = L.ArrayGenerator(w, form=form, length=length)
    c = rng.choice(caches)
    return L.VirtualArray(gen, None if c is None else L.ArrayCache(c))


def rebuild(x, rng, p, caches, watches):
    def go(c):
        return lazy(c, rng, p, caches, watches)
    P = x.parameters
    if isinstance(x, (L.NumpyArray, L.EmptyArray, L.VirtualArray)):
        return x
    if P.get("__array__") in ("string", "bytestring"):
        return x
    n = type(x).__name__
    T = type(x)
    if n.startswith("ListOffsetArray"):
        return T(x.offsets, go(x.content), parameters=P)
    if n.startswith("ListArray"):
        return T(x.starts, x.stops, go(x.content), parameters=P)
    if n == "RegularArray":
        return T(go(x.content), x.size, len(x), parameters=P)
    if n.startswith("Indexed"):
        return T(x.index, go(x.content), parameters=P)
    if n == "ByteMaskedArray":
        return T(x.mask, go(x.content), x.valid_when, parameters=P)
    if n == "BitMaskedArray":
        return T(x.mask, go(x.content), x.valid_when, len(x), x.lsb_order, parameters=P)
    if n == "UnmaskedArray":
        return T(go(x.content), parameters=P)
    if n == "RecordArray":
        return T([go(c) for c in x.contents], None if x.istuple else x.keys(), len(x), parameters=P)
    if n.startswith("UnionArray"):
        return T(x.tags, x.index, [go(c) for c in x.contents], parameters=P)
    raise AssertionError(n)


def shape(x):
    """Signature with the lazy nodes marked."""
    if isinstance(x, L.VirtualArray):
        g = x.generator
        return "V%d%d" % (g.form is not None, (g.length or -1) >= 0)
    if isinstance(x, ak.partition.PartitionedArray) or isinstance(x, (L.NumpyArray, L.EmptyArray)):
        return describe(x)[:40]
    cs = x.contents if hasattr(x, "contents") else [x.content]
    return type(x).__name__[:8] + "(" + ",".join(shape(c) for c in cs) + ")"


def contradiction(rng, rec, ty, vals, lay):
    """A generator whose array is not what was declared must raise when the data are asked for."""
    n = len(lay)
    if rng.random() < 0.5:
        oty = rand_type(rng, CFG)
        other = make(oty, rand_values(rng, oty, CFG, n), None, None)
        if other.form == lay.form or describe(other) == describe(lay):
            return
        gen = L.ArrayGenerator(lambda: lay, form=other.form, length=rng.choice([None, n]))
        what = "form %s declared, generated %s" % (other.form, lay.form)
        key = "form"
    else:
        gen = L.ArrayGenerator(lambda: lay, form=rng.choice([None, lay.form]), length=n + rng.randint(1, 4))
        what = "length %d declared, generated %d" % (gen.length, n)
        key = "length"
    hold = VCache()
    v = ak.Array(L.VirtualArray(gen, L.ArrayCache(hold)))
    uses = [("to_list", lambda: ak.to_list(v)), ("materialized", lambda: ak.materialized(v)), ("array", lambda: v.layout.array), ("at", lambda: v[0]),
            ("reverse", lambda: ak.to_list(v[::-1])), ("num", lambda: ak.num(v, axis=0)), ("numpy", lambda: ak.to_numpy(v)), ("slice", lambda: ak.to_list(v[: n + 1]))]
    nm, fn = rng.choice(uses)
    if nm == "num" and key == "length":
        nm, fn = uses[0]
    rec.step("contradiction %s by %s" % (what, nm))
    got = attempt(fn)
    if got[0] == "ok":
        raise Violation("contradicted %s accepted (%s)" % (key, nm), "%s\n%s gave %s" % (what, nm, short(got[1])))
    rec.count("contradiction:" + key)


def run_case(rng, rec, i):
    cfg = CFG.but(unions=rng.random() < 0.3)
    ty = rand_type(rng, cfg)
    vals = rand_values(rng, ty, cfg)
    want = [strip(ty, v) for v in vals]
    eager_lay = make(ty, vals, rng, cfg) if rng.random() < 0.6 else make_simple(ty, vals)
    eager = ak.Array(eager_lay)
    policy = rng.choice(["keep", "keep", "evict", "drop", "none", "mixed", "buffers"])
    keep = VCache()
    caches = {"keep": [keep], "evict": [Evict(rng.randint(1, 2))], "drop": [Evict(0)], "none": [None], "buffers": [keep]}.get(policy) or [VCache(), Evict(1), None, Evict(0)]
    holder = list(caches)
    watches = []
    if policy == "buffers":
        try:
            form, length, container = ak.to_buffers(eager)
            eager = ak.from_buffers(form, length, container)
            lay = ak.from_buffers(form, length, container, lazy=True, lazy_cache=keep, highlevel=False)
        except Exception as e:
            raise Violation("from_buffers lazy: raised", "%s\n%s" % (e, show_layout(eager_lay)))
    else:
        lay = lazy(eager_lay, rng, rng.choice([0.3, 0.6, 1.0]), caches, watches)
    arr = ak.Array(lay)
    sig = shape(lay)
    # what needs no data generates none
    known = [w for w in watches]
    top = watches[-1] if watches and isinstance(lay, L.VirtualArray) else None
    if top is not None:
        asks = []
        if top.length is not None:
            asks += [("len", lambda: len(arr), len(vals))]
        if top.length is not None and top.form is not None:
            a, b = sorted((rng.randint(0, len(vals)), rng.randint(0, len(vals))))
            asks += [("range slice", lambda: len(arr[a:b]), b - a), ("range", lambda: len(arr[-1 * len(vals):]), len(vals)),
                     ("two slices", lambda: len(arr[a:][: b - a]), b - a)]
        if top.form is not None:
            asks += [("fields", lambda: ak.fields(arr), ak.fields(eager)), ("ndim", lambda: arr.layout.purelist_depth, eager.layout.purelist_depth)]
            for f in ak.fields(eager):
                if top.length is not None and ty.kind == "rec":
                    asks.append(("field", lambda: len(arr[f]), len(vals)))
            if top.length is not None:
                asks.append(("type", lambda: str(ak.type(arr)), str(ak.type(eager))))
        rng.shuffle(asks)
        for nm, fn, w in asks[:4]:
            rec.step("ask %s of %s" % (nm, sig))
            got = attempt(fn)
            if got[0] == "err" or got[1] != w:
                raise Violation("lazy %s: wrong" % nm, "expected %r got %r\n%s" % (w, got[1], show_layout(lay)))
            if top.n:
                raise Violation("lazy %s: generated the array" % nm, "%s\n%s" % (sig, show_layout(lay)))
            rec.count("lazily:" + nm)
    for _ in range(3):
        op = rand_op(rng, ty, vals, cfg)
        key = op.name
        if key in ("repr",) or not comparable(op, ty) or (not vals and key.startswith("ufunc") and has_kind(ty, ("reg",))):
            rec.count("not-comparable")
            continue
        ex = [ak.Array(make_simple(t, v)) for t, v in op.extra]
        a = outcome(op, [eager] + ex)
        if a[0] == "ok":
            a = ("ok", plain(a[1]))
        ex2 = []
        for e in ex:
            ex2.append(ak.Array(lazy(e.layout, rng, 0.5, caches, watches)) if rng.random() < 0.4 else e)
        rec.step("%s %s (%s) on\n%s" % (key, op.what[:300], policy, show_layout(lay, 3000)))
        b = outcome(op, [arr] + ex2)
        if b[0] == "ok":  # reading may raise what a lazily applied slice deferred
            try:
                b = ("ok", plain(b[1]))
            except Exception as e:
                b = ("err", e)
        rec.count("op:" + key)
        rec.count("policy:" + policy)
        rec.sig(key, policy, sig)

        def witness():
            return "%s %s policy %s\nvalues %r: %s\neager: %s\n lazy: %s\n%s" % (key, op.what, policy, ty, short(want), short(a[1]), short(b[1]), show_layout(lay))
        if a[0] == "err" and b[0] == "err":
            rec.count("both-raised")
            continue
        if a[0] != b[0]:
            e = a[1] if a[0] == "err" else b[1]
            if UNSUPPORTED.search(str(e) + type(e).__name__) or "ellipsis (...) can't" in str(e) and has_kind(ty, ("uni", "rec")):
                rec.count("unsupported")
                continue
            raise Violation("%s: only the %s array raises" % (key, "eager" if a[0] == "err" else "lazy"), witness())
        if not same(a[1], b[1], loose=key in LOOSE):
            raise Violation(key + ": results differ", witness())
        rec.count("agreed")
        if policy == "keep" and any(w.n > 1 for w in watches):
            raise Violation("a generator ran again although its cache kept the entry", "%s %s\ncounts %r, %d entries in the cache\n%s" % (key, op.what, [w.n for w in watches], len(keep), show_layout(lay)))
    rec.count("generated", sum(w.n for w in watches))
    got = attempt(lambda: ak.to_list(arr))
    if got[0] == "err" or not same(want, got[1]):
        raise Violation("data changed", "policy %s expected %s got %s\n%s" % (policy, short(want), short(got[1]), show_layout(lay)))
    if len(vals):
        contradiction(rng, rec, ty, vals, eager_lay)
    rec.sample("%s %s: %s" % (policy, sig, short(want, 200)))
