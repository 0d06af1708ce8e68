"""C08 restructuring lists: flatten, unflatten, num, local_index, run_lengths, to/from_regular, size, zip/unzip."""
from vlib.ops import *
from vlib.model import *

META = {
    "property": "C08",
    "technique": "runtime monitor: reference model of each restructuring operation, evaluated on the plain values, compared with the library's result on random layouts (ASan/UBSan build)",
    "cases": {"quick": 32000, "thorough": 600000},
    "rule": "a case is one random nested array in a random layout and 4 restructuring calls (including requests that do not fit); distinct = (function, axis, layout signature); non-trivial = the model predicted a value or an exception",
    "assumptions": ["flatten at axis=0 or 1 drops missing elements or lists, as documented", "axis=0 of num on records and unions is not specified",
                    "a negative axis is used where all branches have one depth"],
}
CFG = Cfg(empty=False, biglen=0.03)


def leaves(ty, v, out):
    k = ty.kind
    if v is None:
        return
    if k == "opt":
        leaves(ty.content, v, out)
    elif k in ("list", "reg"):
        for x in v:
            leaves(ty.content, x, out)
    elif k in ("rec", "uni"):
        raise Ambiguous()
    else:
        out.append(strip(ty, v))


def m_num(ty, vals, ax):
    if ax == 0:
        if has_kind(ty, ("rec", "uni")):
            raise Ambiguous()
        return len(vals)
    return over(ty, vals, ax, lambda t, v: len(v))


def m_local(ty, vals, ax):
    if ax == 0:
        return list(range(len(vals)))
    return over(ty, vals, ax, lambda t, v: list(range(len(v))))


def m_flatten(ty, vals, ax):
    if ax is None:
        if has_kind(ty, ("str", "bytes")):
            raise Ambiguous()
        out = []
        for v in vals:
            leaves(ty, v, out)
        return out
    if ax == 0:
        return [strip(ty, v) for v in vals if v is not None]
    check_axis(ty, ax, vals)
    if above(ty, ax) & {"rec", "uni"}:
        raise Ambiguous()

    def g(t, vs):
        c = unopt(t.content)
        return [strip(c.content, x) for v in vs if v is not None for x in v]
    if ax == 1:
        return g(Lst(ty), vals)
    return [lists_at(ty, v, ax - 1, g) for v in vals]


def flat_at(ty, vals, ax):
    """The elements of all lists at axis, in order, and the list lengths."""
    els, lens = [], []

    def g(t, v):
        els.extend(strip(t.content, x) for x in v)
        lens.append(len(v))
    if ax == 0:
        g(Lst(ty), vals)
    else:
        over(ty, vals, ax, g)
    return els, lens


def m_unflatten(ty, vals, ax, counts):
    """counts: list of ints/None or int."""
    if ax >= purelist_depths(ty)[0]:
        raise Ambiguous()
    if ax > 0:
        check_axis(ty, ax)
        if above(ty, ax) & {"rec", "uni"}:
            raise Ambiguous()
    els, lens = flat_at(ty, vals, ax)
    if isinstance(counts, int):
        if counts <= 0:
            if counts == 0 and not els:
                raise Ambiguous()
            raise ModelError("count %d" % counts)
        if counts > len(els):
            if not els:
                raise Ambiguous()
            raise ModelError("too large")
        for n in lens:
            if n % counts:
                raise ModelError("does not divide")

        def g(t, v):
            s = [strip(t.content, x) for x in v]
            return [s[i: i + counts] for i in range(0, len(s), counts)]
    else:
        it = list(counts)
        if 0 in it or None in it:
            if ax > 0:
                raise Ambiguous()   # a list boundary and an empty new list coincide
        pos = [0]

        def g(t, v):
            s = [strip(t.content, x) for x in v]
            out, k = [], 0
            while k < len(s):
                if pos[0] >= len(it):
                    raise ModelError("too few counts")
                c = it[pos[0]]
                pos[0] += 1
                if c is None:
                    out.append(None)
                else:
                    if k + c > len(s):
                        raise ModelError("crosses a list")
                    out.append(s[k: k + c])
                    k += c
            if ax == 0:
                while pos[0] < len(it) and not it[pos[0]]:
                    out.append(None if it[pos[0]] is None else [])
                    pos[0] += 1
            return out
    out = g(Lst(ty), vals) if ax == 0 else over(ty, vals, ax, g)
    if not isinstance(counts, int) and pos[0] != len(it):
        raise ModelError("too many counts")
    return out


def m_runs(ty, vals):
    t = ty
    if t.kind in ("prim", "str", "bytes"):
        out, last = [], object()
        for v in vals:
            if out and v == last:
                out[-1] += 1
            else:
                out.append(1)
            last = v
        return out
    if t.kind in ("list", "reg"):
        return [m_runs(t.content, v) for v in vals]
    raise Ambiguous()


def m_size(ty, vals, ax):
    def g(t, v, axis, acc):
        acc.append(v)
    # number of elements at an axis, if it is the same everywhere
    if has_kind(ty, ("rec", "uni", "str", "bytes", "opt")) or ax is not None and ax >= purelist_depths(ty)[0]:
        raise Ambiguous()
    if ax is None:
        t, n, lvl = ty, len(vals), vals
        while t.kind in ("list", "reg"):
            ls = set(len(v) for v in lvl)
            if len(ls) > 1:
                raise ModelError("irregular")
            if not ls or t.kind == "list":
                raise Ambiguous()
            n *= ls.pop()
            lvl = [x for v in lvl for x in v]
            t = t.content
        return n
    if ax == 0:
        return len(vals)
    check_axis(ty, ax)
    lens = set(flat_at(ty, vals, ax)[1])
    if not lens:
        raise Ambiguous()
    if len(lens) > 1:
        raise ModelError("irregular")
    t = ty
    for _ in range(ax - 1):
        t = t.content
    if t.kind == "list":
        raise Ambiguous()
    return lens.pop()


def regular_at(ty, vals, ax):
    if above(ty, ax) & {"rec", "uni"}:
        raise Ambiguous()
    return len(set(flat_at(ty, vals, ax)[1])) <= 1


def m_to_regular(ty, vals, ax):
    if ax == 0 or ax >= purelist_depths(ty)[0] or "opt" in above(ty, ax):
        raise Ambiguous()
    if not regular_at(ty, vals, ax):
        raise ModelError("lengths differ")
    return stripped(ty, vals)


def counts_for(rng, lens, broken):
    out = []
    for n in lens:
        left = n
        while left > 0:
            c = rng.randint(0 if rng.random() < 0.2 else 1, min(left, 3))
            out.append(c)
            left -= c
    if rng.random() < 0.2:
        out.append(0)
    if broken and out:
        out[rng.randrange(len(out))] += rng.choice([1, 2])
    if rng.random() < 0.15:
        out.insert(rng.randint(0, len(out)), None)
    return out


def m_zip(tys, cols, lim):
    """zip of arrays of one nested shape (numbers at the leaves)."""
    def go(ts, vs, d):
        ks = [t.kind for t in ts]
        if d == lim or any(k in ("prim", "str", "bytes") for k in ks):
            return {n: strip(t, v) for n, t, v in zip("pqr", ts, vs)}
        if any(k == "opt" for k in ks):
            if any(v is None for v in vs):
                return None
            return go([unopt(t) for t in ts], vs, d)
        return [go([t.content for t in ts], list(x), d + 1) for x in zip(*vs)]
    return [go(tys, list(x), 1) for x in zip(*cols)]


def plainty(rng, d=0):
    r = rng.random()
    if d >= 3 or r < 0.3:
        return Prim(rng.choice(["int64", "float64", "int32"]))
    if r < 0.8:
        return Lst(plainty(rng, d + 1))
    if r < 0.9:
        return Reg(plainty(rng, d + 1), rng.randint(1, 3))
    t = plainty(rng, d)
    return t if t.kind == "opt" or t.kind == "prim" else Opt(t)


def same_shape(rng, ty, v, cfg):
    return like(rng, ty, v, cfg)


def run_case(rng, rec, i):
    cfg = CFG.but(unions=rng.random() < 0.15, records=rng.random() < 0.3, strings=rng.random() < 0.4)
    ty = rand_type(rng, cfg)
    vals = rand_values(rng, ty, cfg)
    lay = make_top(ty, vals, rng, cfg)
    arr = ak.Array(lay)
    sig = describe(lay)
    data = "%s values %s" % (ty, short(stripped(ty, vals)))
    multi = isinstance(lay, ak.partition.PartitionedArray)
    zero = has_zero(ty)
    for _ in range(4):
        name = rng.choice(["num", "num", "local_index", "flatten", "flatten", "flatten", "unflatten", "unflatten", "inverse", "run_lengths", "size", "to_regular", "from_regular", "zip", "from_regular"])
        axis, ax = pick_axis(rng, ty)
        rec.sig(name, axis, sig)
        what = "ak.%s axis=%r of %s" % (name, axis, data)
        if name == "num":
            expect(rec, "num", what, lambda: m_num(ty, vals, ax), lambda: ak.num(arr, axis=axis), [lay])
        elif name == "local_index":
            if axis < 0 and has_kind(ty, ("rec", "uni")):
                continue    # finding C08-local-index-records
            expect(rec, "local_index", what, lambda: m_local(ty, vals, ax), lambda: ak.local_index(arr, axis=axis), [lay])
        elif name == "flatten":
            if rng.random() < 0.25:
                axis = ax = None
            expect(rec, "flatten", "axis=%r %s" % (axis, what), lambda: m_flatten(ty, vals, ax), lambda: ak.flatten(arr, axis=axis), [lay])
        elif name == "unflatten":
            if zero or multi:
                continue
            try:
                lens = flat_at(ty, vals, ax)[1]
            except (ModelError, Ambiguous):
                lens = [len(vals)]
            if rng.random() < 0.25:
                counts = rng.choice([1, 2, 2, 3, 4, 0])
                arg = counts
            else:
                counts = counts_for(rng, lens, rng.random() < 0.2)
                if None in counts:
                    arg = ak.Array(make(Opt(Prim("int64")), counts, rng, cfg))
                    if not counts:
                        continue
                else:
                    arg = np.array(counts, rng.choice([np.int64, np.int32, np.uint8]))
                    if rng.random() < 0.4:
                        arg = ak.Array(arg)
            expect(rec, "unflatten", "counts %r %s" % (counts, what), lambda: m_unflatten(ty, vals, ax, counts), lambda: ak.unflatten(arr, arg, axis=axis), [lay])
        elif name == "inverse":
            if unopt(ty).kind not in ("list", "reg") or ty.kind == "opt" or zero or multi:
                continue
            expect(rec, "unflatten(flatten, num)", what, lambda: stripped(ty, vals), lambda: ak.unflatten(ak.flatten(arr), ak.num(arr)), [lay])
        elif name == "run_lengths":
            if has_kind(ty, ("rec", "uni", "opt")):
                continue    # finding C23-run-lengths-records
            expect(rec, "run_lengths", what, lambda: m_runs(ty, vals), lambda: ak.run_lengths(arr), [lay])
        elif name == "size":
            if zero:
                continue
            if rng.random() < 0.4:
                axis = ax = None
            expect(rec, "size", "axis=%r %s" % (axis, what), lambda: m_size(ty, vals, ax), lambda: ak.size(arr, axis=axis), [lay])
        elif name == "to_regular":
            if zero or multi:
                continue
            r = expect(rec, "to_regular", what, lambda: m_to_regular(ty, vals, ax), lambda: ak.to_regular(arr, axis=axis), [lay])
            if isinstance(r, ak.Array) and 1 <= ax < purelist_depths(ty)[0] and not (above(ty, ax) & {"rec", "uni", "opt"}):
                t, k = ak.type(r).type, ax
                while True:
                    if isinstance(t, ak.types.OptionType):
                        t = t.type
                        continue
                    k -= 1
                    if k == 0:
                        break
                    t = t.type
                lens = flat_at(ty, vals, ax)[1]
                if not isinstance(t, ak.types.RegularType) or (lens and t.size != lens[0]):
                    raise Violation("to_regular: type", "%s\ntype %s" % (what, ak.type(r)))
        elif name == "from_regular":
            def model():
                if ax == 0 or ax is not None and ax >= purelist_depths(ty)[0]:
                    raise Ambiguous()
                return stripped(ty, vals)
            expect(rec, "from_regular", "axis=%r %s" % (axis, what), model, lambda: ak.from_regular(arr, axis=axis), [lay])
        elif name == "zip":
            t = plainty(rng)
            v1 = rand_values(rng, t, cfg)
            cols = [v1] + [[like(rng, t, v, cfg) for v in v1] for _ in range(rng.randint(0, 2))]
            arrs = [ak.Array(make(t, c, rng, cfg)) for c in cols]
            lim = rng.choice([None, None, 1, 2])
            what = "ak.zip depth_limit=%r of %s" % (lim, [short(stripped(t, c)) for c in cols])
            ts = [t] * len(cols)
            if lim is not None and lim > purelist_depths(t)[0]:
                continue
            lays = [a.layout for a in arrs]
            z = expect(rec, "zip", what, lambda: m_zip(ts, cols, lim), lambda: ak.zip(dict(zip("pqr", arrs)), depth_limit=lim), lays)
            if z is not None:
                for n, a, c in zip("pqr", arrs, cols):
                    if opts(t) and lim is None:
                        pass
                    expect(rec, "zip field", what + " field " + n, lambda: stripped(t, c), lambda: z[n], lays)
                u = attempt(lambda: ak.unzip(z))
                if u[0] == "err" or len(u[1]) != len(cols) or not all(same(stripped(t, c), decode(x)) for c, x in zip(cols, u[1])):
                    raise Violation("unzip(zip)", "%s\ngot %s" % (what, short(u[1])))
        rec.sample(what)


def opts(t):
    return has_kind(t, ("opt",))


def has_zero(ty):
    return (ty.kind == "reg" and ty.size == 0) or any(has_zero(c) for c in ([ty.content] if ty.content is not None else []) + list(ty.contents or []))
