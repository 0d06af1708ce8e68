"""C02 slicing: model = NumPy's rules applied list by list over nested Python lists."""
from vlib.common import *

META = {
    "property": "C02",
    "cases": {"quick": 36000, "thorough": 800000},
    "rule": "a case is a random type, values, a random physical layout of them and 4 random slices; distinct = (slice-item kinds, layout signature); non-trivial = the slice was evaluated by the library and compared with the model",
    "assumptions": ["NumPy rules for flat slices; the docstring of ak.Array.__getitem__ for jagged and missing-value slices"],
}
CFG = Cfg(huge=0.1)


# ------------------------------------------------------------------ the model

def has_field(ty, key):
    k = ty.kind
    if k in ("list", "reg", "opt"):
        return has_field(ty.content, key)
    if k == "rec":
        return key in (ty.fields if ty.fields is not None else [str(i) for i in range(len(ty.contents))])
    if k == "uni":
        return all(has_field(c, key) for c in ty.contents)
    return False


def proj_ty(ty, key):
    k = ty.kind
    if k in ("list", "reg"):
        return Ty(k, content=proj_ty(ty.content, key), size=ty.size)
    if k == "opt":
        c = proj_ty(ty.content, key)
        return c if c.kind == "opt" else Opt(c)
    if k == "rec":
        keys = ty.fields if ty.fields is not None else [str(i) for i in range(len(ty.contents))]
        return ty.contents[keys.index(key)]
    if k == "uni":
        return Uni([proj_ty(c, key) for c in ty.contents])
    raise ModelError("no field")


def proj(ty, v, key):
    k = ty.kind
    if v is None:
        return None
    if k in ("list", "reg"):
        return [proj(ty.content, x, key) for x in v]
    if k == "opt":
        return proj(ty.content, v, key)
    if k == "rec":
        keys = ty.fields if ty.fields is not None else [str(i) for i in range(len(ty.contents))]
        return v[keys.index(key)]
    return U(v.tag, proj(ty.contents[v.tag], v.v, key))


def projs_ty(ty, keys):
    k = ty.kind
    if k in ("list", "reg", "opt"):
        return Ty(k, content=projs_ty(ty.content, keys), size=ty.size)
    if k == "rec":
        mine = ty.fields if ty.fields is not None else [str(i) for i in range(len(ty.contents))]
        return Rec(None if ty.fields is None else list(keys), [ty.contents[mine.index(q)] for q in keys])
    return Uni([projs_ty(c, keys) for c in ty.contents])


def projs(ty, v, keys):
    k = ty.kind
    if v is None:
        return None
    if k in ("list", "reg"):
        return [projs(ty.content, x, keys) for x in v]
    if k == "opt":
        return projs(ty.content, v, keys)
    if k == "rec":
        mine = ty.fields if ty.fields is not None else [str(i) for i in range(len(ty.contents))]
        return [v[mine.index(q)] for q in keys]
    return U(v.tag, projs(ty.contents[v.tag], v.v, keys))


def at(vals, i):
    if not -len(vals) <= i < len(vals):
        raise ModelError("index %d out of range for length %d" % (i, len(vals)))
    return vals[i]


def ndims(items):
    n = 0
    for it in items:
        if it[0] in ("int", "slice", "miss", "jag"):
            n += 1
        elif it[0] == "adv":
            n += len(it[2])
    return n


def seal(items):
    """Integers become arrays when any array is present; adjacent arrays iterate as one."""
    if not any(it[0] == "adv" for it in items):
        return items
    shape = [it for it in items if it[0] == "adv"][0][1]
    n = 1
    for x in shape:
        n *= x
    out = []
    for it in items:
        if it[0] == "int":
            it = ("adv", shape, [[it[1]] * n])
        if it[0] == "adv" and out and out[-1][0] == "adv":
            out[-1] = ("adv", shape, out[-1][2] + it[2])
        else:
            out.append(it)
    if sum(it[0] == "adv" for it in out) > 1:
        raise Ambiguous()
    return out


def static_risk(ty, items):
    """Could a check against the type alone (number of dimensions, fixed sizes) reject
    this slice although no element is ever looked up?"""
    def walk(ty, items, size):
        if not items:
            return False
        h, tail = items[0], items[1:]
        if h[0] == "newaxis":
            return walk(ty, tail, size)
        if h[0] == "field":
            return walk(proj_ty(ty, h[1]), tail, size)
        if h[0] == "fields":
            return walk(projs_ty(ty, h[1]), tail, size)
        if h[0] == "ellipsis":
            return any(it[0] in ("int", "adv") for it in tail)
        if h[0] == "int" and size is not None and not -size <= h[1] < size:
            return True
        if h[0] == "adv":
            for d, ix in enumerate(h[2]):
                if size is not None and any(not -size <= i < size for i in ix):
                    return True
                if d + 1 < len(h[2]):
                    t = ty
                    while t.kind == "opt":
                        t = t.content
                    if t.kind not in ("list", "reg"):
                        return True
                    size = t.size if t.kind == "reg" else None
                    ty = t.content
        return down(ty, tail)

    def down(ty, items):
        if not items:
            return False
        k = ty.kind
        if k == "opt":
            return down(ty.content, items)
        if k in ("list", "reg"):
            return walk(ty.content, items, ty.size if k == "reg" else None)
        if items[0][0] == "newaxis":
            return down(ty, items[1:])
        if k == "rec":
            if items[0][0] == "field":
                return down(proj_ty(ty, items[0][1]), items[1:])
            if any(it[0] == "field" for it in items):
                return True
            return any(down(c, items) for c in ty.contents)
        if k == "uni":
            return any(down(c, items) for c in ty.contents)
        return items[0][0] not in ("ellipsis",)
    return walk(ty, items, None)


def take(vals, ty, items):
    """vals: one list whose items have type ty; items[0] applies to it."""
    h, tail = items[0], items[1:]
    if h[0] == "int":
        return elem(at(vals, h[1]), ty, tail)
    if h[0] == "slice":
        return [elem(e, ty, tail) for e in vals[h[1]]]
    if h[0] == "newaxis":
        return [take(vals, ty, tail) if tail else [strip(ty, v) for v in vals]]
    if h[0] == "field":
        v2, t2 = [proj(ty, v, h[1]) for v in vals], proj_ty(ty, h[1])
        return take(v2, t2, tail) if tail else [strip(t2, v) for v in v2]
    if h[0] == "fields":
        v2, t2 = [projs(ty, v, h[1]) for v in vals], projs_ty(ty, h[1])
        return take(v2, t2, tail) if tail else [strip(t2, v) for v in v2]
    if h[0] == "ellipsis":
        if not tail:
            return [strip(ty, v) for v in vals]
        if has_kind(ty, ("str", "bytes")):
            raise Ambiguous()
        a, b = purelist_depths(ty)
        n = ndims(tail)
        if a == n and b == n:
            return take(vals, ty, tail)
        if a == n or b == n:
            raise Ambiguous()
        return take(vals, ty, [("slice", slice(None))] + items)
    if h[0] == "adv":
        shape, idx = h[1], h[2]
        n = len(idx[0])
        flat = [chain(vals, ty, [ix[k] for ix in idx], tail) for k in range(n)]
        return reshape(flat, shape)
    if h[0] == "miss":
        if not h[1] and has_kind(ty, ("rec",)):
            raise Ambiguous()
        return [None if i is None else elem(at(vals, i), ty, tail) for i in h[1]]
    if h[0] == "jag":
        return take_jag(vals, ty, h[1])
    raise AssertionError(h)


def chain(vals, ty, idx, tail):
    e = at(vals, idx[0])
    if len(idx) == 1:
        return elem(e, ty, tail)
    return elem(e, ty, [("adv1", idx[1:])] + tail)


def reshape(flat, shape):
    if len(shape) == 1:
        return flat
    n = 1
    for s in shape[1:]:
        n *= s
    return [reshape(flat[i * n:(i + 1) * n], shape[1:]) for i in range(shape[0])]


def elem(e, ty, items):
    if not items:
        return strip(ty, e)
    k = ty.kind
    if items[0][0] == "newaxis":
        return [elem(e, ty, items[1:])]
    if k == "opt":
        if e is None and any(it[0] == "newaxis" for it in items):
            raise Ambiguous()
        return None if e is None else elem(e, ty.content, items)
    if k in ("list", "reg"):
        if items[0][0] == "adv1":
            return chain(e, ty.content, items[0][1], items[1:])
        return take(e, ty.content, items)
    if k == "rec":
        for j, it in enumerate(items):
            if it[0] in ("fields", "miss"):
                raise Ambiguous()
            if it[0] == "field":        # a field name applies to the record it reaches first
                return elem(proj(ty, e, it[1]), proj_ty(ty, it[1]), items[:j] + items[j + 1:])
        vals = [elem(x, c, items) for x, c in zip(e, ty.contents)]
        return tuple(vals) if ty.fields is None else dict(zip(ty.fields, vals))
    if k == "uni":
        return elem(e.v, ty.contents[e.tag], items)
    if k in ("str", "bytes"):
        raise Ambiguous()
    raise ModelError("too many dimensions")


def take_jag(vals, ty, jag):
    """jag: Python list, same length as vals when nested; ints/bools/None at the bottom."""
    if len(jag) != len(vals):
        raise ModelError("jagged slice length")
    return [jelem(e, ty, j) for e, j in zip(vals, jag)]


def jelem(e, ty, j):
    if ty.kind == "opt":
        if e is None:
            return None
        ty = ty.content
    if j is None:
        return None
    if ty.kind not in ("list", "reg"):
        raise ModelError("jagged too deep")
    if any(isinstance(x, list) for x in j):
        return take_jag(e, ty.content, j)
    if any(isinstance(x, bool) for x in j):
        if len(j) != len(e):
            # a mask is the list of its True positions: they have to exist
            if any(b for b in j[len(e):]):
                raise ModelError("boolean length")
            raise Ambiguous()
        return [None if b is None else strip(ty.content, v) for v, b in zip(e, j) if b is None or b]
    return [None if i is None else strip(ty.content, at(e, i)) for i in j]


# ------------------------------------------------------------------ generators

def unopt(ty):
    return ty.content if ty.kind == "opt" else ty


def rand_slice(rng, n):
    def b():
        return rng.choice([None, None, 0, 1, 2, -1, -2, n, n + 2, -n - 2, rng.randint(-n - 1, n + 1)])
    return slice(b(), b(), rng.choice([None, None, None, 1, 2, -1, -1, -2, 3, -3, 4, -4, 5, -5]))


def min_len(vals, ty):
    """Lengths present at the next dimension."""
    ty2 = unopt(ty)
    return [len(v) for v in vals if v is not None] if ty2.kind in ("list", "reg") else []


def rand_index(rng, n, err):
    if n == 0 or rng.random() < err:
        return rng.randint(-n - 2, n + 2)
    return rng.randint(-n, n - 1)


def all_fields(ty):
    k = ty.kind
    if k in ("list", "reg", "opt"):
        return all_fields(ty.content)
    if k == "rec":
        return ty.fields if ty.fields is not None else [str(i) for i in range(len(ty.contents))]
    return []


def gen_items(rng, ty, vals, rec):
    """Type-directed random slice; returns model items and the Python expression."""
    items, where = [], []
    cur_ty, cur = ty, vals      # cur: a sample list of elements at this dimension (all lists pooled)
    pools = [vals]              # every list the next item will be applied to
    used_adv = used_ell = inrec = False
    err = 0.04 if rng.random() < 0.5 else 0.0
    nmax = rng.choice([1, 1, 2, 2, 3, 4])
    while len(items) < nmax:
        r = rng.random()
        fl = all_fields(cur_ty)
        if fl and r < 0.2 and not used_adv and not inrec:
            if rng.random() < 0.75 or len(fl) < 1:
                key = rng.choice(fl)
                items.append(("field", key))
                where.append(key)
                pools = [[proj(cur_ty, v, key) for v in p] for p in pools]
                cur_ty = proj_ty(cur_ty, key)
                continue
            else:
                keys = rng.sample(fl, rng.randint(1, len(fl)))
                if has_kind(cur_ty, ("uni",)):
                    continue
                items.append(("fields", keys))
                where.append(list(keys))
                pools = [[projs(cur_ty, v, keys) for v in p] for p in pools]
                cur_ty = projs_ty(cur_ty, keys)
                break        # fields followed by more fields has its own rule (Slice::only_fields)
        lens = [len(p) for p in pools] or [0]
        lo = min(lens)
        if r < 0.45:
            i = rand_index(rng, lo, err)
            items.append(("int", i))
            where.append(np.int32(i) if rng.random() < 0.1 else i)
            pools = [[p[i]] for p in pools if -len(p) <= i < len(p)]
        elif r < 0.72:
            s = rand_slice(rng, max(lens))
            items.append(("slice", s))
            where.append(s)
            pools = [p[s] for p in pools]
        elif r < 0.77 and not used_ell and not inrec:
            used_ell = True
            items.append(("ellipsis",))
            where.append(Ellipsis)
            # continue with items for the innermost dimension
            a, b = purelist_depths(cur_ty)
            if a != b:
                break
            t = cur_ty
            inner = pools
            while unopt(t).kind in ("list", "reg"):
                inner = [x for p in inner for x in p if x is not None]
                t = unopt(t).content
            if rng.random() < 0.8 and t.kind in ("prim", "opt"):
                lens = [len(p) for p in inner] or [0]
                if rng.random() < 0.5:
                    i = rand_index(rng, min(lens), err)
                    items.append(("int", i)); where.append(i)
                else:
                    s = rand_slice(rng, max(lens))
                    items.append(("slice", s)); where.append(s)
            break
        elif r < 0.81:
            items.append(("newaxis",))
            where.append(np.newaxis)
            nmax += 1
            continue
        elif r < 0.96 and not used_adv:
            used_adv = True
            done = gen_array_item(rng, cur_ty, pools, items, where, err, lo)
            if done is None:
                break
            pools, cur_ty = done
            if rng.random() < 0.5:
                break
            # fallthrough to descend
        else:
            continue
        # descend to the next list dimension
        t = unopt(cur_ty)
        if t.kind not in ("list", "reg"):
            if rng.random() < 0.03 and t.kind == "prim":
                items.append(("int", 0)); where.append(0)      # too many dimensions
            elif t.kind == "rec" and rng.random() < 0.6 and len(items) < nmax and all(unopt(c).kind in ("list", "reg") for c in t.contents):
                # into every field at once
                j = rng.randrange(len(t.contents))
                pools = [v[j] for p in pools for v in p if v is not None and v[j] is not None]
                cur_ty = unopt(t.contents[j]).content
                inrec = True
                continue
            elif t.kind == "rec" and not inrec and rng.random() < 0.5:
                cur_ty = t
                flds = all_fields(t)
                key = rng.choice(flds)
                items.append(("field", key)); where.append(key)
            break
        pools = [x for p in pools for x in p if x is not None]
        cur_ty = t.content
    return items, where


def as_index_array(rng, arr):
    """The same integer/boolean array in one of the accepted containers."""
    r = rng.random()
    if r < 0.3:
        return arr.tolist() if arr.size else arr
    if r < 0.6:
        if arr.dtype != np.bool_ and rng.random() < 0.5 and (arr.size == 0 or (abs(arr).max() < 100)):
            arr = arr.astype(rng.choice([np.int8, np.int16, np.int32]))
        if rng.random() < 0.3:
            big = np.zeros((arr.shape[0] * 2,) + arr.shape[1:], arr.dtype)
            big[::2] = arr
            return big[::2]
        return arr
    if arr.ndim == 1 and r < 0.8:
        return ak.Array(make(Prim(arr.dtype.name), arr.tolist(), rng, CFG.but(virtual=0)))
    return ak.Array(L.NumpyArray(arr))


def gen_array_item(rng, cur_ty, pools, items, where, err, lo):
    r = rng.random()
    single = len(pools) == 1 and not any(it[0] in ("slice", "newaxis", "adv", "ellipsis") for it in items)
    if r < 0.3:
        # one integer array, 1-d to 4-d
        shape = [rng.randint(0, 4)] if rng.random() < 0.7 else [rng.randint(1, 3) for _ in range(rng.choice([2, 2, 2, 3, 3, 4]))]
        n = int(np.prod(shape))
        if lo == 0 and not pools:
            lo = 1
        idx = [rand_index(rng, lo, err) if lo else 0 for _ in range(n)]
        if lo == 0:
            n = 0; shape = [0]; idx = []
        items.append(("adv", shape, [idx]))
        where.append(as_index_array(rng, np.array(idx, np.int64).reshape(shape)))
        pools = [[p[i] for i in idx if -len(p) <= i < len(p)] for p in pools]
        return pools, cur_ty
    if r < 0.5 and len(set(map(len, pools))) <= 1:
        # boolean array of the right length
        n = len(pools[0]) if pools else 0
        m = [rng.random() < 0.6 for _ in range(n)]
        if err and rng.random() < 0.3:
            m = m + [True]
        idx = [i for i, b in enumerate(m) if b]
        items.append(("adv", [len(idx)], [idx]))
        where.append(as_index_array(rng, np.array(m, np.bool_)))
        pools = [[p[i] for i in idx if i < len(p)] for p in pools]
        return pools, cur_ty
    if r < 0.65 and unopt(cur_ty).kind in ("list", "reg") and pools:
        # two (or more) integer arrays iterated as one
        n = rng.randint(0, 3)
        t = unopt(cur_ty)
        idx1 = [rand_index(rng, lo, err) if lo else 0 for _ in range(n)]
        if not lo:
            n, idx1 = 0, []
        idx2 = []
        for i in idx1:
            sub = [len(p[i]) for p in pools if -len(p) <= i < len(p) and p[i] is not None]
            m = min(sub) if sub else 0
            if m == 0 and rng.random() < 0.7:
                m = 1
            idx2.append(rand_index(rng, m, err))
        if idx2 and rng.random() < 0.3:
            idx2 = [idx2[0]] * n
            w2 = rng.choice([np.array(idx2[:1]), idx2[0]])
        else:
            w2 = as_index_array(rng, np.array(idx2, np.int64))
        items.append(("adv", [n], [idx1, idx2]))
        where.append(as_index_array(rng, np.array(idx1, np.int64)))
        where.append(w2)
        return None
    if r < 0.8 and single:
        # missing-value array at the first dimension
        n = len(pools[0])
        if rng.random() < 0.6:
            idx = [None if rng.random() < 0.3 else (rand_index(rng, n, err) if n else None) for _ in range(rng.randint(1, 4))]
            items.append(("miss", idx))
            where.append(ak.Array(make(Opt(Prim("int64")), idx, rng, CFG.but(virtual=0))))
        else:
            m = [None if rng.random() < 0.3 else rng.random() < 0.6 for _ in range(n)]
            items.append(("miss", [None if b is None else i for i, b in enumerate(m) if b is None or b]))
            where.append(ak.Array(make(Opt(Prim("bool")), m, rng, CFG.but(virtual=0))))
        return None
    if single and len(items) == 0 and unopt(cur_ty).kind in ("list", "reg"):
        # jagged
        vals = pools[0]
        depth = 1
        t = unopt(cur_ty)
        while unopt(t.content).kind in ("list", "reg") and rng.random() < 0.5:
            t = unopt(t.content)
            depth += 1
        how = rng.choice(["int", "bool", "intnone", "boolnone"])
        bad = [rng.random() < err]

        def gen(v, d):
            if v is None:
                return []
            if d == 0:
                if how.startswith("bool"):
                    j = [rng.random() < 0.6 for _ in v]
                    if bad[0] and rng.random() < 0.5:
                        bad[0] = False
                        j = j + [True]
                else:
                    k = rng.randint(0, 3) if v else 0
                    j = [rand_index(rng, len(v), 0.3 if bad[0] else 0) for _ in range(k)]
                if how.endswith("none"):
                    j = [None if rng.random() < 0.25 else x for x in j]
                return j
            return [gen(x, d - 1) for x in v]
        jag = [gen(v, depth - 1) for v in vals]
        if how.startswith("bool") and any(v is None for v in vals):
            pass
        jt = Prim("int64" if how.startswith("int") else "bool")
        if how.endswith("none"):
            jt = Opt(jt)
        for _ in range(depth):
            jt = Lst(jt)
        items.append(("jag", jag))
        where.append(ak.Array(make(jt.content if False else jt, jag, rng, CFG.but(virtual=0))))
        return None
    return None


def run_case(rng, rec, i):
    cfg = CFG
    ty = rand_type(rng, cfg)
    vals = rand_values(rng, ty, cfg)
    lay = make_top(ty, vals, rng, cfg)
    arr = ak.Array(lay)
    sig = describe(lay)
    for _ in range(4):
        items, where = gen_items(rng, ty, vals, rec)
        if not items:
            continue
        w = where[0] if len(where) == 1 and rng.random() < 0.8 else tuple(where)
        kinds = ",".join(it[0] for it in items)
        what = "array of type %r with values %s\n  sliced by %s" % (ty, short([strip(ty, v) for v in vals]), short(tuple(x.tolist() if isinstance(x, ak.Array) else x for x in where)))
        expect(rec, "getitem[" + kinds + "]", what, lambda: take(vals, ty, seal(items)), lambda: arr[w], [lay] + [x.layout for x in where if isinstance(x, ak.Array)],
               skip_err=lambda e: static_risk(ty, seal(items)))
        rec.sig(kinds, sig)
        rec.sample(what)
