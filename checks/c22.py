"""C22 inputs are never modified, results outlive their inputs, nothing leaks."""
import ctypes
import gc
import weakref
from vlib.ops import *
from vlib import vgen
from checks.c01 import layout_op

META = {
    "property": "C22",
    "technique": "runtime monitor: shadow copies of every input buffer compared after each operation, weak references to every input buffer, use-after-free fill, and live-heap accounting from the AddressSanitizer allocator",
    "cases": {"quick": 6500, "thorough": 400000},
    "rule": "a case is a random array in a hostile layout plus aliases of it (views, slices, shared layouts), 3 random operations (public or layout level), field assignments, deletion of all inputs and a second reading of the results; distinct = (operation, layout signature); non-trivial = buffers were compared after an operation returned or raised",
    "assumptions": ["heap growth is judged only when it repeats linearly over three measured rounds"],
}
CFG = Cfg(empty=True, nan=True, virtual=0.0, partitioned=0.06, biglen=0.04)
ASAN = ctypes.CDLL(None)
try:
    LIVE = ASAN.__sanitizer_get_current_allocated_bytes
    LIVE.restype = ctypes.c_size_t
except AttributeError:
    LIVE = None


def setup(rec):
    rng = random.Random(0)
    for i in range(40):
        rec.case = -1
        try:
            run_case(rng, rec, i)
        except Exception:
            pass
    gc.collect()
    gc.freeze()


class Shadow(object):
    """Copies of the buffers behind the inputs, and weak references to them."""

    def __init__(self, bufs):
        self.bufs = bufs
        self.copies = [b.copy() if b.size < 100000 else None for b in bufs]

    def changed(self):
        for b, c in zip(self.bufs, self.copies):
            if c is not None and b.tobytes() != c.tobytes():
                return "buffer %r became %r" % (c[:40], b[:40])
        return None


def freeze_result(x):
    """A result with everything that keeps it alive, and a way to read it."""
    if isinstance(x, (ak.Array, ak.Record, L.Content, L.Record, ak.partition.PartitionedArray)):
        return lambda: decode(x)
    if isinstance(x, np.ndarray):
        return lambda: repr(x.tobytes()) if not x.dtype.hasobject else repr(x.tolist())
    if isinstance(x, (list, tuple)):
        fs = [freeze_result(y) for y in x]
        return lambda: [f() for f in fs]
    if isinstance(x, (L.Index8, L.IndexU8, L.Index32, L.IndexU32, L.Index64)):
        return lambda: np.asarray(x).tolist()
    return lambda: repr(x)


def buffers_of(rng, arr, key):
    """Extra ways to look at an array's memory."""
    r = rng.random()
    if r < 0.3:
        return ak.to_buffers(arr)[2]
    return None


def run_case(rng, rec, i):
    vgen.REGISTRY = bufs = []
    try:
        refs = work(rng, rec, bufs)
    finally:
        vgen.REGISTRY = None
    del bufs[:]
    gc.collect()
    live = [r for r in refs[0] if r() is not None]
    if live:
        raise Violation("an input buffer is never released", "%d of %d buffers survive; after %s" % (len(live), len(refs[0]), refs[1]))
    rec.count("buffers-released", len(refs[0]))


def work(rng, rec, bufs):
    ty = rand_type(rng, CFG)
    vals = rand_values(rng, ty, CFG)
    lay = make_top(ty, vals, rng, CFG)
    arr = ak.Array(lay)
    want = [strip(ty, v) for v in vals]
    sig = describe(lay)
    alias = [("the same layout", ak.Array(lay), want)]
    if not isinstance(lay, ak.partition.PartitionedArray):
        a, b = sorted([rng.randint(0, len(vals)), rng.randint(0, len(vals))])
        alias.append(("a slice of it", arr[a:b], want[a:b]))
    done = []
    kept = []
    for _ in range(3):
        extras = []
        partitioned = isinstance(lay, ak.partition.PartitionedArray)
        if rng.random() < 0.25 and not partitioned:
            r2, seed = random.Random(), rng.random()
            r2.seed(seed)
            name, lcall = layout_op(r2, lay)

            def call(r2=r2, seed=seed, lcall=lcall):
                r2.seed(seed)
                return lcall()
            key, what, args = "layout." + name, "", None
        else:
            op = rand_op(rng, ty, vals, CFG)
            key, what = op.name, op.what
            for t, v in op.extra:
                extras.append((t, v, ak.Array(make_top(t, v, rng, CFG))))
            fn, args = op.fn, [arr] + [e[2] for e in extras]
            call = lambda: fn(*args)
        sh = Shadow(list(bufs))
        rec.step("%s %s" % (key, what))
        done.append(key)
        got = attempt(call)
        rec.count("op:" + key)
        rec.sig(key, sig)
        text = "%s %s\nvalues %r: %s\n%s" % (key, what, ty, short(want), show_layout(lay))
        bad = sh.changed()
        if bad:
            raise Violation(key + ": modified an input buffer", bad + "\n" + text)
        rec.count("buffers-compared", len(sh.bufs))
        del sh
        for nm, x, w in alias:
            if not same(w, dec(x, "alias")):
                raise Violation(key + ": changed " + nm, text)
        if got[0] == "ok":
            read = freeze_result(got[1])
            try:
                kept.append((key, what, read, read()))
            except Exception:
                rec.count("unreadable")     # C01 and C23 judge that
            if LIVE is not None and rng.random() < 0.05:
                leak_test(rec, key, call, text)
        got = read = None
        call = lcall = None
        fn = args = op = extras = None
    if ty.kind == "rec" and ty.fields is not None and not isinstance(lay, ak.partition.PartitionedArray):
        assign(rng, rec, ty, vals, arr, lay, want)
    refs = [weakref.ref(b) for b in bufs]
    text = "%r %s\n%s" % (done, short(want), show_layout(lay))
    # everything the results were made from goes away
    del arr, lay, alias, x, w
    del bufs[:]
    gc.collect()
    for key, what, read, before in kept:
        rec.step("read again the result of %s %s" % (key, what))
        after = read()
        if not same(before, after):
            raise Violation(key + ": the result changed when its inputs were deleted", "%s\nbefore %s\n after %s\n%s" % (what, short(before), short(after), text))
        rec.count("results-reread")
    return refs, text


def assign(rng, rec, ty, vals, arr, lay, want):
    """Field assignment changes only the object assigned to."""
    other, view = ak.Array(lay), arr[:]
    fs = list(ty.fields)
    f = rng.choice(fs + ["brandnew"])
    new = [rng.randint(0, 9) for _ in vals]
    target = ak.Array(lay)
    rec.step("assign %r" % f)
    got = attempt(lambda: target.__setitem__(f, ak.Array(np.array(new, np.int64))))
    rec.count("op:assign")
    text = "a[%r] = %r\nvalues %s\n%s" % (f, new, short(want), show_layout(lay))
    for nm, x in (("another array of the same layout", other), ("a view", view), ("the layout", lay)):
        if not same(want, dec(x, "assign")):
            raise Violation("assigning a field changed " + nm, text)
        if not isinstance(x, L.Content) and sorted(ak.fields(x)) != sorted(fs):
            raise Violation("assigning a field changed the fields of " + nm, text)
    if got[0] == "ok" and len(vals):
        exp = [dict(w, **{f: n}) for w, n in zip(want, new)]
        if not same([sorted(x.items()) for x in exp], [sorted(x.items()) for x in dec(target, "assign")]):
            raise Violation("field assignment: wrong result", "%s\nexpected %s\ngot %s" % (text, short(exp), short(dec(target, "assign"))))
    target = None


def leak_test(rec, key, call, text):
    def burst(n):
        for _ in range(n):
            call()
        gc.collect()
        return LIVE()
    burst(4)
    a = burst(8)
    b = burst(8)
    rec.count("leak-tests")
    if b - a < 8 * 16:
        return
    c = burst(8)
    if c - b < 8 * 16:
        return
    d = burst(32)
    if d - c >= 32 * 16:
        raise Violation(key + ": leaks memory", "live heap bytes %d -> %d -> %d -> %d over 8, 8, 32 repetitions\n%s" % (a, b, c, d, text))
