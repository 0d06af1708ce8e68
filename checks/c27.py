"""C27 Record fields, names and behaviours stay with the data they belong to."""
from vlib.common import *
from vlib import vgen

META = {
    "property": "C27",
    "technique": "runtime monitor: reference model of field projection, assignment, zipping and unzipping, and a walk over every element reached from a result that checks the class chosen for it against the record name of the data there, with registered classes and overloads that log the data they are applied to; under ASan/UBSan",
    "cases": {"quick": 8000, "thorough": 700000},
    "rule": "a case is one array with records (random type, names and layout, possibly lazy or partitioned) and one operation: projection of a field, a path or a list of fields; with_field or item assignment of new or existing fields (scalars, shallower, equally deep or deeper data) at a random path; zip with a depth limit; unzip; a slice or restructuring after which every element's class is compared; or an overloaded ufunc; distinct = (form, operation, variant); non-trivial = a result was compared or a refusal confirmed",
    "assumptions": ["option/indexed nodes are not directly nested"],
}
KEYS = ["x", "y", "z", "long name", "\u00e9", "t.u", "layout", "1a"]
DIGITS = ["1", "0", "2", "-1"]
NAMES = ["Point", "Quad", "Rare Name", "Plain"]
CFG = Cfg(virtual=0.1, partitioned=0.1, maxdepth=3, unions=False, names=NAMES, biglen=0.02, zero_size_regular=False)
LOG = []


class PointArray(ak.Array):
    pass


class QuadArray(ak.Array):
    pass


class RareArray(ak.Array):
    pass


class PointRecord(ak.Record):
    pass


class QuadRecord(ak.Record):
    @property
    def whoami(self):
        return "quad"


class Stack(ak.Array):
    pass


ARR = {"Point": PointArray, "Quad": QuadArray, "Rare Name": RareArray}
REC = {"Point": PointRecord, "Quad": QuadRecord}
BEHAVIOR = {("*", k): v for k, v in ARR.items()}
BEHAVIOR.update(REC)


def f_add_pp(a, b):
    return a["x"] * 10 + b["x"]


def f_add_pq(a, b):
    return a["x"] * 100 + b["x"]


def f_neg_p(a):
    return a["x"] * 7


BEHAVIOR[np.add, "Point", "Point"] = f_add_pp
BEHAVIOR[np.add, "Point", "Quad"] = f_add_pq
BEHAVIOR[np.negative, "Point"] = f_neg_p
OVER = {("Point", "Point"): lambda a, b: a * 10 + b, ("Point", "Quad"): lambda a, b: a * 100 + b}


def setup(rec):
    ak.behavior.update(BEHAVIOR)


# ------------------------------------------------------------------ model

def fields_at(ty):
    """Field names reachable without crossing another record, or None."""
    while ty.kind in ("list", "reg", "opt"):
        ty = ty.content
    return ty if ty.kind == "rec" else None


def keys_of(r):
    return list(r.fields) if r.fields is not None else [str(i) for i in range(len(r.contents))]


def proj(ty, v, f):
    """One field of a value of type ty."""
    if ty.kind in ("list", "reg"):
        return [proj(ty.content, x, f) for x in v]
    if ty.kind == "opt":
        return None if v is None else proj(ty.content, v, f)
    return v[keys_of(ty).index(f)]


def projty(ty, f):
    if ty.kind == "list":
        return Lst(projty(ty.content, f))
    if ty.kind == "reg":
        return Reg(projty(ty.content, f), ty.size)
    if ty.kind == "opt":
        c = projty(ty.content, f)
        return c if c.kind == "opt" else Opt(c)
    return ty.contents[keys_of(ty).index(f)]


def rewrap(ty, fn):
    """Type with the first record below replaced by fn(record type)."""
    if ty.kind == "list":
        return Lst(rewrap(ty.content, fn))
    if ty.kind == "reg":
        return Reg(rewrap(ty.content, fn), ty.size)
    if ty.kind == "opt":
        return Opt(rewrap(ty.content, fn))
    return fn(ty)


def onrec(ty, v, fn):
    if ty.kind in ("list", "reg"):
        return [onrec(ty.content, x, fn) for x in v]
    if ty.kind == "opt":
        return None if v is None else onrec(ty.content, v, fn)
    return fn(v)


def purename(ty):
    """Record name found below lists and options."""
    while ty.kind in ("list", "reg", "opt"):
        ty = ty.content
    return ty.name if ty.kind == "rec" else None


def walk(rec, key, ty, v, x, wit, lazy):
    """Class of everything reached from x against what type ty demands."""
    rec.count("elements walked")
    if ty.kind == "opt":
        if v is None:
            if x is not None:
                raise Violation(key + ": missing value", wit("missing became %r" % (x,)))
            return
        ty = ty.content
    if ty.kind == "rec":
        want = REC.get(ty.name, ak.Record)
        if type(x) is not want:
            raise Violation(key + ": wrong class of a record", wit("record named %r has class %s, expected %s" % (ty.name, type(x).__name__, want.__name__)))
        rec.count("records")
        if list(ak.fields(x)) != keys_of(ty):
            raise Violation(key + ": wrong fields", wit("fields %r, expected %r" % (ak.fields(x), keys_of(ty))))
        for f, c, w in zip(keys_of(ty), ty.contents, v):
            walk(rec, key, c, w, x[f], wit, lazy)
    elif ty.kind in ("list", "reg"):
        want = ARR.get(purename(ty), ak.Array)
        if cls_of(x) is not want and not (lazy and cls_of(x) is ak.Array):
            raise Violation(key + ": wrong class of an array", wit("array of %r has class %s, expected %s" % (purename(ty), type(x).__name__, want.__name__)))
        if len(x) != len(v):
            raise Violation(key + ": wrong length", wit("length %d, expected %d" % (len(x), len(v))))
        for a, b in list(zip(v, x))[:12]:
            walk(rec, key, ty.content, a, b, wit, lazy)
    elif ty.kind in ("str", "bytes") and x != v:
        raise Violation(key + ": wrong class of a string", wit("%s became %s" % (ty.kind, type(x).__name__)))


STRINGY = ("StringBehavior", "ByteStringBehavior", "CharBehavior", "ByteBehavior", "CategoricalBehavior")


def cls_of(x):
    return ak.Array if type(x).__name__ in STRINGY else type(x)


def verify(rec, key, what, ty, vals, x, lays, order=True):
    """Values, field names, record names and classes of a result."""
    def wit(s):
        return "%s\n%s\n%s" % (what, s, "\n".join(show_layout(l, 3000) for l in lays))
    want = [strip(ty, v) for v in vals]
    got = dec(x, key)
    if not same(want, got):
        raise Violation(key + ": wrong data", wit("expected %s\n     got %s" % (short(want), short(got))))
    cls = ARR.get(purename(Lst(ty)), ak.Array)
    lazy = any("V" in vgen.describe(l) for l in lays)
    if not lazy and cls is not ak.Array and cls_of(x) is ak.Array and "<UnionArray" in repr(x.layout):
        lazy = True                 # KNOWN C27-concat-union
    if cls_of(x) is not cls and not (lazy and cls_of(x) is ak.Array):
        raise Violation(key + ": wrong class of an array", wit("array of %r has class %s, expected %s" % (purename(ty), type(x).__name__, cls.__name__)))
    n = len(vals)
    for i in sorted(set([0, 1, n // 2, n - 1])):
        if 0 <= i < n:
            walk(rec, key, ty, vals[i], x[i], wit, lazy)
    rec.count("agreed:" + key)


def err(rec, key, what, fn, lays, kinds=Exception):
    rec.step(what)
    try:
        out = fn()
    except kinds:
        rec.count("refused:" + key)
        return
    raise Violation(key + ": not refused", "%s\ngave %s\n%s" % (what, short(ak.to_list(out)), "\n".join(show_layout(l) for l in lays)))


# ------------------------------------------------------------------ generation

def rand_rec(rng, cfg, depth=0):
    n = rng.choice([1, 1, 2, 2, 3])
    fields = None if rng.random() < 0.25 else rng.sample(KEYS + DIGITS, n)
    name = rng.choice(NAMES) if rng.random() < 0.7 else None
    cs = []
    for _ in range(n):
        if depth < 2 and rng.random() < 0.3:
            cs.append(prefix(rng, rand_rec(rng, cfg, depth + 1), rng.choice([0, 0, 1])))
        else:
            cs.append(rand_type(rng, cfg, 2, unk=False))
    return Rec(fields, cs, name)


def prefix(rng, ty, n, inopt=False):
    """ty below n random lists, regular lists or options."""
    for _ in range(n):
        k = rng.choice(["list", "list", "reg", "opt"])
        if k == "opt" and ty.kind == "opt":
            k = "list"
        ty = Lst(ty) if k == "list" else Opt(ty) if k == "opt" else Reg(ty, rng.choice([1, 2, 3]))
    return ty


def array(rng, cfg=CFG, ty=None):
    if ty is None:
        ty = prefix(rng, rand_rec(rng, cfg), rng.choice([0, 0, 1, 1, 2, 3]))
    vals = rand_values(rng, ty, cfg)
    lay = make_top(ty, vals, rng, cfg)
    return ty, vals, lay


def project(rng, rec, i):
    ty, vals, lay = array(rng)
    a = ak.Array(lay)
    rec.sig(("project", vgen.describe(lay)))
    r = fields_at(ty)
    path, cty, cvals = [], ty, list(vals)
    while True:
        f = rng.choice(keys_of(r))
        path.append(f)
        cvals = [proj(cty, v, f) for v in cvals]
        cty = projty(cty, f)
        r = fields_at(cty)
        if r is None or rng.random() < 0.3:
            break
    how = rng.choice(["path", "chain", "attr", "row", "record"])
    rec.step("project %r %s" % (path, how))
    if how == "path":
        out = a[tuple(path)] if len(path) > 1 or rng.random() < 0.5 else a[path[0]]
    elif how == "chain":
        out = a
        for f in path:
            out = out[f]
    elif how == "attr":
        out = a
        for f in path:
            out = getattr(out, f) if f.isidentifier() and not hasattr(ak.Array, f) else out[f]
    elif how == "row":              # a slice first, the fields after it, and the other way around
        sl = slice(rng.choice([None, 0, 1, -2]), rng.choice([None, 3, -1]), rng.choice([None, 1, 2, -1]))
        out = a[(sl,) + tuple(path)] if rng.random() < 0.5 else a[tuple(path) + (sl,)]
        cvals = cvals[sl]
    else:
        if not vals:
            raise Skip("empty")
        j = rng.randrange(len(vals))
        j2 = j - len(vals) if rng.random() < 0.4 else j
        x = a[j2]
        if x is None:
            raise Skip("missing")
        for f in path:
            if x is None:
                break
            x = x[f]
        got = dec([x] if x is None else x, "project: record") if x is None else dec(x, "project: record")
        want = strip(cty, cvals[j])
        if not same(want, None if x is None else got):
            raise Violation("project: record: wrong data", "a[%d] then %r\nexpected %s\n     got %s\n%s" % (j2, path, short(want), short(got), show_layout(lay)))
        rec.count("agreed:project record")
        return
    verify(rec, "project", "project %r by %s" % (path, how), cty, cvals, out, [lay])


def several(rng, rec, i):
    ty, vals, lay = array(rng)
    a = ak.Array(lay)
    rec.sig(("several", vgen.describe(lay)))
    r = fields_at(ty)
    ks = keys_of(r)
    sub = rng.sample(ks, rng.randint(1, len(ks)))
    # a selection of fields is a new record: its name is not the old one's
    nr = lambda q: Rec(sub if q.fields is not None else None, [q.contents[ks.index(f)] for f in sub], None)
    nty = rewrap(ty, nr)
    nvals = [onrec(ty, v, lambda w: tuple(w[ks.index(f)] for f in sub)) for v in vals]
    rec.step("fields %r" % (sub,))
    out = a[sub]
    got = dec(out, "several")
    want = [strip(nty, v) for v in nvals]
    if r.fields is None:            # a tuple may come back as a record named by slot numbers
        conv = lambda z: z
        got2 = untuple(got)
        want = untuple(want)
        if sub == [str(q) for q in range(len(sub))]:
            ok = same(want, got2)
        else:
            ok = same(renamed(want, sub), got2) or same(want, got2)
    else:
        ok = same(want, got)
    if not ok:
        raise Violation("several fields: wrong data", "a[%r]\nexpected %s\n     got %s\n%s" % (sub, short(want), short(got), show_layout(lay)))
    bad = rng.choice(["nope", "", "x ", "99"])
    if bad not in ks:
        err(rec, "unknown field", "a[%r]" % bad, lambda: a[bad], [lay])
        err(rec, "unknown field", "a[%r]" % [ks[0], bad], lambda: a[[ks[0], bad]], [lay])
    rec.count("agreed:several")


def untuple(x):
    if isinstance(x, tuple):
        return {str(j): untuple(y) for j, y in enumerate(x)}
    if isinstance(x, list):
        return [untuple(y) for y in x]
    if isinstance(x, dict):
        return {k: untuple(y) for k, y in x.items()}
    return x


def renamed(x, sub):
    """First-level records of slot-named fields renamed to sub."""
    if isinstance(x, list):
        return [renamed(y, sub) for y in x]
    if isinstance(x, dict):
        return {s: y for s, y in zip(sub, x.values())}
    return x


def follow(rng, ty, v, leafty, cfg, drop):
    """A value shaped like v (of type ty, down to its records) with random leaves."""
    if drop == 0 or ty.kind == "rec":
        return rand_value(rng, leafty, cfg)
    if ty.kind in ("list", "reg"):
        return [follow(rng, ty.content, x, leafty, cfg, drop - 1) for x in v]
    return None if v is None else follow(rng, ty.content, v, leafty, cfg, drop)


def levels(ty):
    n = 0
    while ty.kind in ("list", "reg", "opt"):
        n += ty.kind != "opt"
        ty = ty.content
    return n


def likety(ty, leaf, drop):
    if drop == 0 or ty.kind == "rec":
        return leaf
    if ty.kind == "list":
        return Lst(likety(ty.content, leaf, drop - 1))
    if ty.kind == "reg":
        return Reg(likety(ty.content, leaf, drop - 1), ty.size)
    c = likety(ty.content, leaf, drop)
    return c if c.kind == "opt" else Opt(c)


def assign_value(ty, v, w, wty, drop, put):
    """The record value(s) v with the corresponding part of w put in."""
    if ty.kind == "opt":
        if v is None:
            return None
        return assign_value(ty.content, v, w, wty, drop, put)
    if ty.kind == "rec":
        return put(v, w)
    if drop == 0:
        return [assign_value(ty.content, x, w, wty, 0, put) for x in v]
    return [assign_value(ty.content, x, y, wty, drop - 1, put) for x, y in zip(v, w)]


def assign(rng, rec, i):
    ty, vals, lay = array(rng)
    a = ak.Array(lay)
    # the path: zero or more fields to records inside
    path, tys, vv = [], [ty], [list(vals)]
    while rng.random() < 0.4:
        r = fields_at(tys[-1])
        cand = [f for f, c in zip(keys_of(r), r.contents) if fields_at(c) is not None]
        if not cand or r.fields is None:
            break
        f = rng.choice(cand)
        path.append(f)
        vv.append([proj(tys[-1], v, f) for v in vv[-1]])
        tys.append(projty(tys[-1], f))
    base, bvals = tys[-1], vv[-1]
    r = fields_at(base)
    ks = keys_of(r)
    depth = levels(base)
    new = rng.choice(ks) if rng.random() < 0.4 and r.fields is not None else rng.choice([k for k in KEYS + ["w", "new field"] if k not in ks])
    if rng.random() < 0.2:
        scalar = rng.choice([3, 2.5, True, -7])
        wty, wvals, wlay, what, drop = Prim("bool" if scalar is True else "float64" if isinstance(scalar, float) else "int64"), None, None, scalar, None
        leaf = wty
    else:
        drop = rng.choice([depth, depth, depth, rng.randint(0, depth)])
        sub = base
        # the length of an array of options at the top counts as a dimension of its own
        leaf = rand_type(rng, CFG, 2, unk=False)
        if drop < depth:            # broadcast downwards: only numbers do that without question
            leaf = Prim(rng.choice(["int64", "float32"]))
        wty = likety(base, leaf, drop)
        wvals = [follow(rng, base, v, leaf, CFG, drop) for v in bvals]
        wlay = make_top(wty, wvals, rng, CFG)
        what = ak.Array(wlay)
    rec.sig(("assign", vgen.describe(lay), len(path), drop, new in ks))
    ks2 = [k for k in ks if k != new]

    def newrec(q):
        cs = [q.contents[ks.index(k)] for k in ks2] + [leaf]
        return Rec(ks2 + [new], cs, q.name)

    def put(v, w):
        return tuple(v[ks.index(k)] for k in ks2) + (w,)
    if wvals is None:
        nvals = [onrec(base, v, lambda w: put(w, what)) for v in bvals]
    else:
        nvals = [assign_value(base, v, w, wty, drop, put) for v, w in zip(bvals, wvals)]
    nty = rewrap(base, newrec)
    # back up the path: each level's field is replaced (and so comes last)
    for f, t, vs in reversed(list(zip(path, tys, vv))):
        q0 = fields_at(t)
        kk = keys_of(q0)
        k2 = [k for k in kk if k != f]
        inner = [pick_inner(t, v, nv) for v, nv in zip(vs, nvals)]
        innerty = inner_type(t, f, nty)
        nvals = [zip_put(t, v, w, lambda p, w: tuple(p[kk.index(k)] for k in k2) + (w,)) for v, w in zip(vs, inner)]
        nty = rewrap(t, lambda q: Rec(k2 + [f], [q.contents[kk.index(k)] for k in k2] + [innerty], q.name))
    lays = [lay] + ([wlay] if wlay is not None else [])
    where = tuple(path) + (new,)
    how = rng.choice(["with_field", "list", "setitem"])
    desc = "%s where=%r what=%s" % (how, where, short(what if wlay is None else [strip(wty, w) for w in wvals], 300))
    rec.step(desc)
    if how == "setitem":
        out = ak.Array(lay)
        st = attempt(lambda: out.__setitem__(where if len(where) > 1 else where[0], what))
    else:
        st = attempt(lambda: ak.with_field(a, what, (list(where) if how == "list" else where) if len(where) > 1 else where[0]))
        out = st[1]
    if st[0] == "err":
        if UNSUPPORTED.search(str(st[1])) or "cannot broadcast RegularArray of size" in str(st[1]) and has_zero(ty):
            rec.count("unsupported")
            return
        raise Violation("with_field: raised", "%s\n%s: %s\n%s" % (desc, type(st[1]).__name__, str(st[1])[:400], "\n".join(show_layout(l) for l in lays)))
    verify(rec, "with_field", desc, nty, nvals, out, lays)
    before = [strip(ty, v) for v in vals]
    if not same(before, dec(a, "with_field")):
        raise Violation("with_field: changed its argument", "%s\n%s" % (desc, show_layout(lay)))
    if ak.fields(a) != keys_of(fields_at(ty)):
        raise Violation("with_field: changed its argument", desc)


def has_zero(ty):
    return False


def opt_record(ty):
    while ty.kind in ("list", "reg"):
        ty = ty.content
    return ty.kind == "opt" and ty.content.kind == "rec" or ty.kind == "opt" and opt_record(ty.content)


def kinds_above(ty):
    out = []
    while ty.kind in ("list", "reg", "opt"):
        out.append(ty.kind)
        ty = ty.content
    return out


def pick_inner(t, v, nv):
    return nv


def inner_type(t, f, nty):
    """Type of the replaced field as seen from one record of t."""
    # nty is t's wrapping of the new content: take the same number of list levels (and merged options) off
    def off(t, n):
        if t.kind in ("list", "reg"):
            return off(t.content, n.content if n.kind != "opt" else n.content.content)
        if t.kind == "opt":
            return off(t.content, n)
        return n
    return off(t, nty)


def zip_put(t, v, w, fn):
    if t.kind in ("list", "reg"):
        return [zip_put(t.content, x, y, fn) for x, y in zip(v, w)]
    if t.kind == "opt":
        return None if v is None else zip_put(t.content, v, w, fn)
    return fn(v, w)


def zipping(rng, rec, i):
    k = rng.choice([1, 2, 2, 3])
    depth = rng.choice([0, 1, 1, 2])
    shape = Prim("int64")
    for _ in range(depth):
        shape = Lst(shape) if rng.random() < 0.7 else Reg(shape, rng.choice([1, 2, 3]))
    svals = rand_values(rng, shape, CFG)
    tys, valss, lays = [], [], []
    limit = rng.choice([None, 1, depth + 1, rng.randint(1, depth + 1)])
    for _ in range(k):
        leaf = rng.choice([rand_type(rng, CFG, 2, unk=False), Prim("float64"), STR]) if limit is not None else rng.choice([Prim("int32"), Prim("bool"), STR, Opt(Prim("float64")), rand_rec(rng, CFG, 2) if limit == depth + 1 else Prim("float32")])
        ty = like_shape(shape, leaf)
        vals = [fill(rng, shape, v, leaf) for v in svals]
        tys.append(ty)
        valss.append(vals)
        lays.append(make_top(ty, vals, rng, CFG))
    names = None if rng.random() < 0.3 else rng.sample(KEYS + DIGITS, k)
    nm = rng.choice([None] + NAMES)
    stop = depth if limit is None else limit - 1
    nvals = [zipv(stop, list(vs)) for vs in zip(*valss)]
    nty = zipty(stop, tys, names, nm)
    arrs = [ak.Array(l) for l in lays]
    desc = "zip(%r, depth_limit=%r, with_name=%r) of %s" % (names, limit, nm, tys)
    rec.sig(("zip", tuple(vgen.describe(l) for l in lays), limit, names is None))
    rec.step(desc)
    st = attempt(lambda: ak.zip(arrs if names is None else dict(zip(names, arrs)), depth_limit=limit, with_name=nm))
    if st[0] == "err":
        if UNSUPPORTED.search(str(st[1])):
            return
        raise Violation("zip: raised", "%s\n%s: %s\n%s" % (desc, type(st[1]).__name__, str(st[1])[:400], "\n".join(show_layout(l) for l in lays)))
    verify(rec, "zip", desc, nty, nvals, st[1], lays)
    back = ak.unzip(st[1])
    if len(back) != k:
        raise Violation("unzip: wrong number", desc)
    for t, vs, b, j in zip(tys, valss, back, range(k)):
        verify(rec, "unzip", desc + " slot %d" % j, t, vs, b, lays)


def like_shape(shape, leaf):
    if shape.kind == "list":
        return Lst(like_shape(shape.content, leaf))
    if shape.kind == "reg":
        return Reg(like_shape(shape.content, leaf), shape.size)
    return leaf


def fill(rng, shape, v, leaf):
    if shape.kind == "prim":
        return rand_value(rng, leaf, CFG)
    return [fill(rng, shape.content, x, leaf) for x in v]


def zipv(stop, vs):
    if stop == 0:
        return tuple(vs)
    return [zipv(stop - 1, list(x)) for x in zip(*vs)]


def zipty(stop, tys, names, nm):
    if stop == 0:
        return Rec(names, tys, nm)
    c = zipty(stop - 1, [t.content for t in tys], names, nm)
    return Reg(c, tys[0].size) if tys[0].kind == "reg" else Lst(c)


def unzipping(rng, rec, i):
    ty, vals, lay = array(rng)
    rec.sig(("unzip", vgen.describe(lay)))
    a = ak.Array(lay)
    r = fields_at(ty)
    if ak.fields(a) != keys_of(r):
        raise Violation("fields: wrong", "%r expected %r\n%s" % (ak.fields(a), keys_of(r), show_layout(lay)))
    if rng.random() < 0.3 and len(vals) and ty.kind == "rec":
        x = a[rng.randrange(len(vals))]
        if ak.fields(x) != keys_of(r):
            raise Violation("fields: wrong", "record: %r expected %r" % (ak.fields(x), keys_of(r)))
    out = ak.unzip(a)
    if not isinstance(out, tuple) or len(out) != len(r.contents):
        raise Violation("unzip: wrong number", show_layout(lay))
    for f, o in zip(keys_of(r), out):
        verify(rec, "unzip", "unzip, field %r" % f, projty(ty, f), [proj(ty, v, f) for v in vals], o, [lay])


def restructure(rng, rec, i):
    """Names stay attached: slice or restructure, then walk."""
    ty, vals, lay = array(rng)
    a = ak.Array(lay)
    n = len(vals)
    part = isinstance(lay, ak.partition.PartitionedArray)
    ops = ["range", "index", "mask", "missing", "rename", "packed", "concat", "pad", "copy", "drop_none", "buffers", "materialized", "newaxis", "where_mask"]
    inner = ty.content if ty.kind == "opt" else ty
    if ty.kind in ("list", "reg"):
        ops += ["flatten", "inner", "firsts", "unflatten"] * 2
    op = rng.choice(ops)
    rec.sig(("restructure", vgen.describe(lay), op))
    nty, nvals, fn, lays = ty, list(vals), None, [lay]
    if op == "range":
        sl = slice(rng.choice([None, 1, -3]), rng.choice([None, 4, -1]), rng.choice([None, 2, -1]))
        nvals, fn = nvals[sl], lambda: a[sl]
    elif op == "index":
        idx = [rng.randrange(-n, n) for _ in range(rng.randint(0, 5))] if n else []
        nvals, fn = [vals[j] for j in idx], lambda: a[np.array(idx, np.int64)]
    elif op == "mask":
        m = [rng.random() < 0.6 for _ in range(n)]
        nvals, fn = [v for v, q in zip(vals, m) if q], lambda: a[np.array(m, np.bool_)]
    elif op == "missing":
        idx = [None if rng.random() < 0.4 else rng.randrange(n) for _ in range(4)] if n else [None]
        nvals = [None if j is None else vals[j] for j in idx]
        nty = ty if ty.kind == "opt" else Opt(ty)
        if all(j is None for j in idx):
            raise Skip("index of unknown type")
        fn = lambda: a[ak.Array(idx)]
    elif op == "where_mask":
        m = [rng.random() < 0.6 for _ in range(n)]
        nvals = [v if q else None for v, q in zip(vals, m)]
        nty = ty if ty.kind == "opt" else Opt(ty)
        fn = lambda: ak.mask(a, np.array(m, np.bool_))
    elif op == "rename":
        nm = rng.choice(NAMES + ["Point"])
        def setname(t):
            if t.kind == "rec":
                return Rec(t.fields, [setname(c) if False else c for c in t.contents], nm)
            return t
        # with_name renames the records found first on every branch
        nty = rewrap(ty, setname)
        fn = lambda: ak.with_name(a, nm)
    elif op == "packed":
        fn = lambda: ak.packed(a)
    elif op == "materialized":
        fn = lambda: ak.materialized(a)
    elif op == "concat":
        lay2 = make_top(ty, vals, rng, CFG)
        lays.append(lay2)
        nvals, fn = list(vals) + list(vals), lambda: ak.concatenate([a, ak.Array(lay2)])
    elif op == "pad":
        t = rng.randint(0, 6)
        nty = ty if ty.kind == "opt" else Opt(ty)
        nvals = nvals + [None] * max(0, t - n)
        fn = lambda: ak.pad_none(a, t, axis=0)
    elif op == "copy":
        fn = lambda: ak.copy(a)
    elif op == "drop_none":
        if ty.kind != "opt":
            raise Skip("no option")
        nty, nvals = ty.content, [v for v in vals if v is not None]
        fn = lambda: a[~ak.is_none(a)]
        nty = ty
    elif op == "buffers":
        fn = lambda: ak.from_buffers(*ak.to_buffers(a)) if not part else ak.from_buffers(*ak.to_buffers(ak.repartition(a, None)))
    elif op == "newaxis":
        nty, nvals = Reg(ty, 1), [[v] for v in vals]
        fn = lambda: a[:, np.newaxis]
    elif op == "flatten":
        nty, nvals = ty.content, [x for v in vals for x in v]
        fn = lambda: ak.flatten(a, axis=1)
    elif op == "inner":
        sl = slice(rng.choice([None, 1, -2]), rng.choice([None, 2, -1]), rng.choice([None, 1, -1]))
        nvals = [v[sl] for v in vals]
        nty = Lst(ty.content)
        fn = lambda: a[:, sl]
    elif op == "firsts":
        nty, nvals = ty.content if ty.content.kind == "opt" else Opt(ty.content), [v[0] if len(v) else None for v in vals]
        fn = lambda: ak.firsts(a)
    elif op == "unflatten":
        if part:
            raise Skip("unflatten of partitions")
        counts = []
        left = n
        while left:
            c = rng.randint(0, left)
            counts.append(c)
            left -= c
        if not counts:
            raise Skip("empty")
        nty, nvals, p = Lst(ty), [], 0
        for c in counts:
            nvals.append(vals[p:p + c])
            p += c
        fn = lambda: ak.unflatten(a, np.array(counts, np.int64))
    rec.step(op)
    st = attempt(fn)
    if st[0] == "err":
        if UNSUPPORTED.search(str(st[1])):
            rec.count("unsupported")
            return
        raise Violation(op + ": raised", "%s: %s\n%s" % (type(st[1]).__name__, str(st[1])[:400], show_layout(lay)))
    verify(rec, "name after " + op, op, nty, nvals, st[1], lays)


def overload(rng, rec, i):
    cfg = CFG.but(extremes=0.0)
    depth = rng.choice([0, 0, 1, 2])
    shape = Prim("int64")
    kinds = [rng.choice(["list", "list", "opt", "reg"]) for _ in range(depth)]
    names = [rng.choice(["Point", "Quad", None]) if rng.random() < 0.5 else "Point" for _ in range(2)]
    num = Prim(rng.choice(["int64", "float64"]))

    def build(nm):
        fs = ["x"] + rng.sample(["y", "z"], rng.randint(0, 2))
        t = Rec(fs, [num] + [rand_type(rng, cfg, 2, unk=False) for _ in fs[1:]], nm)
        return t
    recs = [build(nm) for nm in names]

    def wrap(t):
        for k in reversed(kinds):
            t = Lst(t) if k == "list" else Reg(t, 2) if k == "reg" else (Opt(t) if t.kind != "opt" else t)
        return t
    tys = [wrap(r) for r in recs]
    sv = rand_values(rng, wrap(shape), cfg)

    def fillv(t, v, r):
        if t.kind == "rec":
            return rand_value(rng, r, cfg)
        if t.kind == "opt":
            return None if v is None else fillv(t.content, v, r)
        return [fillv(t.content, x, r) for x in v]
    valss = [[fillv(t, v, r) for v in sv] for t, r in zip(tys, recs)]
    lays = [make_top(t, vs, rng, cfg) for t, vs in zip(tys, valss)]
    a, b = [ak.Array(l) for l in lays]
    rec.sig(("overload", tuple(vgen.describe(l) for l in lays), tuple(names)))
    unary = rng.random() < 0.3
    if unary:
        desc = "-a for %s" % (tys[0],)
        if names[0] != "Point":
            err(rec, "overload: no match", desc, lambda: np.negative(a), lays)
            return
        want = [onrec(tys[0], v, lambda w: w[0] * 7) for v in valss[0]]
        st = attempt(lambda: np.negative(a))
    else:
        desc = "a + b for %s, %s" % tuple(tys)
        f = OVER.get(tuple(names))
        if f is None:
            err(rec, "overload: no match", desc, lambda: a + b, lays)
            return
        def both(t, v, w):
            if t.kind == "rec":
                return f(v[0], w[0])
            if t.kind == "opt":
                return None if v is None else both(t.content, v, w)
            return [both(t.content, x, y) for x, y in zip(v, w)]
        want = [both(tys[0], v, w) for v, w in zip(*valss)]
        st = attempt(lambda: a + b)
    if st[0] == "err":
        raise Violation("overload: raised", "%s\n%s: %s\n%s" % (desc, type(st[1]).__name__, str(st[1])[:400], "\n".join(show_layout(l) for l in lays)))
    got = dec(st[1], "overload")
    if not close(want, got):
        raise Violation("overload: wrong result", "%s\nexpected %s\n     got %s\n%s" % (desc, short(want), short(got), "\n".join(show_layout(l) for l in lays)))
    rec.count("agreed:overload")


def run_case(rng, rec, i):
    fn = rng.choice([project, project, several, assign, assign, assign, zipping, zipping, unzipping, restructure, restructure, restructure, overload])
    fn(rng, rec, i)
