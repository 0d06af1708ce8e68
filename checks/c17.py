"""C17 partitioned arrays behave as their concatenation: every operation on random partitionings, against the single array."""
from vlib.ops import *
from checks.c03 import comparable, has_zero, LOOSE, KNOWN_RAISES

META = {
    "property": "C17",
    "technique": "runtime monitor: differential oracle (single array vs random partitionings of the same values) over randomised operations on the ASan/UBSan build; repartitioning is checked against the generated values and requested lengths",
    "cases": {"quick": 9000, "thorough": 400000},
    "rule": "a case is one random typed value held whole and in two random partitionings (with empty partitions, partition slices of one buffer or independently laid out partitions), put through 3 operations each, repartitioned and read; distinct = (operation, partition layout signature); non-trivial = at least one operation returned data from both",
    "assumptions": ["operations that partitioned arrays do not support (documented by raising 'partitioned' or NotImplementedError) may raise",
                    "reductions of floating-point numbers may differ in the last digits"],
}
CFG = Cfg(empty=False, nan=True, biglen=0.04)
PLAIN = CFG.but(indexed=0, slack=0, strided=0, numpynd=0, sliced=0)


BROADCAST = ("where", "broadcast_arrays", "isclose", "var", "mean", "softmax", "with_field", "mask")


def defined(op, ty):
    """Whether the property settles the operation on partitions."""
    nm = op.name
    if nm in ("type", "repr", "repartition") or not comparable(op, ty):
        return False
    if nm == "unflatten":
        return False        # documented: new lists cannot cross partitions
    if has_kind(ty, ("reg",)) and (nm in BROADCAST or nm.startswith("ufunc") and op.extra and op.extra[0][0] is not ty):
        return False        # finding C17-regular-broadcast
    if op.axis is None and nm in REDUCERS + ["flatten"] and has_kind(ty, ("rec", "uni")):
        return False        # which of the fields comes first in a flattened record is not defined
    if nm in ("mean", "var", "softmax") and (op.axis is None or op.axis == 0 or op.axis == -purelist_depths(ty)[1]):
        return False        # their keepdims=True steps do not line up at axis=0 (finding C06-axis0-keepdims)
    if nm == "size" and has_kind(ty, ("reg",)) or nm == "firsts" and has_zero(ty):
        return False        # concatenating regular lists makes them variable-length; finding C09-firsts-zero-size
    if has_kind(ty, ("str", "bytes")) and (nm.startswith("ufunc") and nm not in ("ufunc.equal", "ufunc.not_equal") or op.via == "getitem" and op.what.startswith("(")):
        return False        # operations that reach into the characters are not defined
    if nm in ("sort", "argsort") and has_kind(ty, ("opt",)) and op.axis != -1 or nm == "to_numpy" and has_kind(ty, ("opt",)):
        return False        # missing lists: sorting them is not defined (see C05), nor is the width of a masked row
    if op.via == "getitem" and re.match(r"\(-?\d+, .*array\(\[\]", op.what):
        return False        # an integer together with an empty array selects nothing
    if nm == "to_pandas" and has_kind(ty, ("rec",)) and has_kind(ty, ("opt", "uni")):
        return False
    if nm == "getitem" and len(re.findall("['\"]", op.what)) > 2:
        return False        # more than one field
    return True


def partition(rng, ty, vals, cfg):
    n = len(vals)
    cuts = sorted(rng.randint(0, n) for _ in range(rng.choice([1, 1, 2, 3])))
    if cuts and rng.random() < 0.3:
        cuts = sorted(cuts + [rng.choice(cuts)])
    b = [0] + cuts + [n]
    r = rng.random()
    if r < 0.4:
        whole = make(ty, vals, None, None)
        parts = [whole[x:y] for x, y in zip(b[:-1], b[1:])]
    elif r < 0.7:
        parts = [make(ty, vals[x:y], None, None) for x, y in zip(b[:-1], b[1:])]
    else:
        cfg = cfg.but(numpynd=rng.choice([0.0, 1.0]))
        parts = [make(ty, vals[x:y], rng, cfg) for x, y in zip(b[:-1], b[1:])]
    return ak.partition.IrregularlyPartitionedArray(parts), b


def run_case(rng, rec, i):
    cfg = CFG.but(unions=rng.random() < 0.2)
    ty = rand_type(rng, cfg)
    vals = rand_values(rng, ty, cfg)
    n = len(vals)
    want = [strip(ty, v) for v in vals]
    base = ak.Array(make_simple(ty, vals))
    hosts = []
    for _ in range(2):
        lay, b = partition(rng, ty, vals, cfg)
        h = ak.Array(lay)
        hosts.append(h)
        rec.step("read %s" % describe(lay))
        k = rng.randint(1, 5)
        pos = [rng.randint(-n, n - 1) for _ in range(3)] if n else []
        lo, hi, st = rng.randint(-n - 1, n + 1), rng.randint(-n - 1, n + 1), rng.choice([1, 1, 2, -1, -2, 3])
        cut = sorted(rng.randint(0, n) for _ in range(rng.randint(0, 3)))
        lens = [y - x for x, y in zip([0] + cut, cut + [n])]
        reads = [("list", lambda: ak.to_list(h), want), ("iterate", lambda: [plain(x) for x in h], want), ("len", lambda: len(h), n),
                 ("at", lambda: [plain(h[p]) for p in pos], [want[p] for p in pos]),
                 ("range", lambda: plain(h[lo:hi]), want[lo:hi]), ("step", lambda: plain(h[lo:hi:st]), want[lo:hi:st]),
                 ("single", lambda: plain(ak.repartition(h, None)), want),
                 ("packed", lambda: plain(ak.packed(h)), want), ("copy", lambda: plain(ak.copy(h)), want)]
        for nm, fn, w in rng.sample(reads, 5):
            got = attempt(fn)
            if got[0] == "err" or not same(w, got[1]):
                raise Violation("read %s" % nm, "bounds %r lo:hi:step %r:%r:%r positions %r\nexpected %s\n     got %s\n%s" % (b, lo, hi, st, pos, short(w), short(got[1]), show_layout(lay)))
            rec.count("read:" + nm)
        # repartitioning
        if True:
            req = k if rng.random() < 0.5 else lens
            rec.step("repartition %r" % (req,))
            got = attempt(lambda: ak.repartition(h, req))
            if got[0] == "err":
                raise Violation("repartition: raised", "%r of %r: %s" % (req, b, got[1]))
            out = got[1]
            d = plain(out)
            lout = out.layout
            gl = [len(p) for p in lout.partitions] if isinstance(lout, ak.partition.PartitionedArray) else [len(lout)]
            wl = lens if req is lens else [k] * (n // k) + ([n % k] if n % k else [])
            if not same(want, d):
                raise Violation("repartition: data changed", "%r of %r\nexpected %s\n     got %s" % (req, b, short(want), short(d)))
            if gl != wl and not (n == 0 and sum(gl) == 0) and not (len(wl) == 1 and gl == wl):
                raise Violation("repartition: lengths", "%r of bounds %r gave lengths %r, expected %r" % (req, b, gl, wl))
            rec.count("repartition")
    for _ in range(3):
        op = rand_op(rng, ty, vals, cfg)
        key = op.name
        if not defined(op, ty) or n == 0 and op.via == "getitem":
            rec.count("not-comparable")
            continue
        a = outcome(op, [base] + [ak.Array(make_simple(t, v)) for t, v in op.extra])
        if a[0] == "ok":
            a = ("ok", plain(a[1]))
        for h in hosts:
            extra = []
            for t, v in op.extra:
                r = rng.random()
                if r < 0.4:
                    extra.append(ak.Array(make_simple(t, v)))
                elif r < 0.7 and len(v) == n and t.kind != "unk":
                    # the same boundaries
                    bb = np.cumsum([0] + [len(p) for p in h.layout.partitions]).tolist()
                    extra.append(ak.Array(ak.partition.IrregularlyPartitionedArray([make(t, v[x:y], None, None) for x, y in zip(bb[:-1], bb[1:])])))
                elif t.kind != "unk":
                    extra.append(ak.Array(partition(rng, t, v, cfg)[0]))
                else:
                    extra.append(ak.Array(make_simple(t, v)))
            rec.step("%s %s on\n%s" % (key, op.what[:300], show_layout(h.layout, 3000)))
            b = outcome(op, [h] + extra)
            rec.count("op:" + key)
            rec.sig(key, describe(h.layout))

            def witness():
                return "%s %s\nvalues %r: %s\n     single: %s\npartitioned: %s\n%s\nextra: %s" % (
                    key, op.what, ty, short(want), short(a[1]), short(b[1]), show_layout(h.layout), [show_layout(e.layout, 1500) for e in extra])
            if a[0] == "err" and b[0] == "err":
                rec.count("both-raised")
                continue
            if a[0] != b[0]:
                e = a[1] if a[0] == "err" else b[1]
                if UNSUPPORTED.search(str(e) + type(e).__name__) or KNOWN_RAISES.search(str(e)) or (
                        "differs from the first Form" in str(e) or "Array chunks must all be same type" in str(e)     # partitions of different forms
                        or "too large counts" in str(e)):
                    rec.count("unsupported")
                    continue
                if b[0] == "ok":
                    try:
                        b = ("ok", plain(b[1]))
                    except Exception:
                        pass
                raise Violation("%s: only the %s array raises" % (key, "single" if a[0] == "err" else "partitioned"), witness())
            try:
                b = ("ok", plain(b[1]))
            except Exception as e:
                raise Violation(key + ": partitioned result cannot be read", "%s\n%s" % (e, witness()))
            if not (close(a[1], b[1], op.tol) if op.tol else same(a[1], b[1], loose=key in LOOSE) or key in LOOSE and close(a[1], b[1], 1e-12)):
                raise Violation(key + ": results differ", witness())
            rec.count("agreed")
    rec.sample("%s: %s" % (op.name, short(want, 200)))
