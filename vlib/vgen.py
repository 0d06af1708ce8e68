"""Random types, values of those types, and hostile physical layouts of those values.

Nothing here asks the library what an array means: the generator knows the values
it encodes, and `decode` reads result layouts buffer by buffer.
"""
import math
import numpy as np
import awkward as ak

L = ak.layout

INTS = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"]
FLOATS = ["float32", "float64"]
NUMS = INTS + FLOATS


class Ty(object):
    __slots__ = ("kind", "dtype", "content", "size", "fields", "contents", "name")

    def __init__(self, kind, dtype=None, content=None, size=None, fields=None, contents=None, name=None):
        self.kind, self.dtype, self.content, self.size = kind, dtype, content, size
        self.fields, self.contents, self.name = fields, contents, name

    def __repr__(self):
        k = self.kind
        if k == "prim":
            return self.dtype
        if k in ("str", "bytes", "unk"):
            return k
        if k == "list":
            return "var*%r" % self.content
        if k == "reg":
            return "%d*%r" % (self.size, self.content)
        if k == "opt":
            return "?(%r)" % self.content
        if k == "rec":
            nm = self.name or ""
            if self.fields is None:
                return nm + "(" + ",".join(map(repr, self.contents)) + ")"
            return nm + "{" + ",".join("%s:%r" % fc for fc in zip(self.fields, self.contents)) + "}"
        return "union[" + ",".join(map(repr, self.contents)) + "]"


def Prim(d): return Ty("prim", dtype=d)
def Lst(c): return Ty("list", content=c)
def Reg(c, n): return Ty("reg", content=c, size=n)
def Opt(c): return Ty("opt", content=c)
def Rec(fields, contents, name=None): return Ty("rec", fields=fields, contents=contents, name=name)
def Uni(contents): return Ty("uni", contents=contents)
STR, BYTES, UNK = Ty("str"), Ty("bytes"), Ty("unk")


class U(object):
    """A union value: remembers which possibility it belongs to."""
    __slots__ = ("tag", "v")

    def __init__(self, tag, v):
        self.tag, self.v = tag, v


def strip(ty, v):
    """The plain Python value (what to_list should give)."""
    k = ty.kind
    if v is None or k in ("prim", "str", "bytes"):
        return v
    if k in ("list", "reg"):
        c = ty.content
        if c.kind == "prim":
            return list(v)
        return [strip(c, x) for x in v]
    if k == "opt":
        return strip(ty.content, v)
    if k == "rec":
        vals = [strip(c, x) for c, x in zip(ty.contents, v)]
        return tuple(vals) if ty.fields is None else dict(zip(ty.fields, vals))
    if k == "uni":
        return strip(ty.contents[v.tag], v.v)
    raise AssertionError(k)


# ------------------------------------------------------------------- types

ALLPRIMS = ["bool"] + NUMS + ["complex64", "complex128", "datetime64[s]", "datetime64[ns]", "timedelta64[s]", "timedelta64[ms]"]


class Cfg(object):
    """Knobs of the generators; properties override what they need."""
    def __init__(self, **kw):
        self.prims = ["bool"] + NUMS
        self.prim_weights = None
        self.strings = True
        self.bytestrings = True
        self.records = True
        self.tuples = True
        self.unions = True
        self.options = True
        self.regular = True
        self.empty = False        # EmptyArray / unknown type
        self.maxdepth = 4
        self.maxlen = 6
        self.biglen = 0.03
        self.huge = 0.0         # chance of a length beyond one byte (where a long length is drawn at all)
        self.nan = False
        self.extremes = 0.05
        self.float_step = 0.5
        self.smallvals = True
        # layouts
        self.indexed = 0.2
        self.virtual = 0.0
        self.partitioned = 0.0
        self.slack = 0.6          # probability of unreachable / gap data per node
        self.strided = 0.3
        self.numpynd = 0.4
        self.sliced = 0.2
        self.nonsimple = 0.0      # indexed nodes inside options etc.
        self.simple = 0.1         # probability of the plain canonical layout
        self.uni_strings = True
        self.names = None
        self.keys = ["y", "x", "z"]
        self.zero_size_regular = True
        self.lists = True
        self.regstr = True        # strings of equal length as RegularArrays (their type differs)
        for k, v in kw.items():
            if not hasattr(self, k):
                raise AttributeError(k)
            setattr(self, k, v)

    def but(self, **kw):
        c = Cfg()
        c.__dict__.update(self.__dict__)
        for k, v in kw.items():
            if not hasattr(c, k):
                raise AttributeError(k)
            setattr(c, k, v)
        return c


def rand_prim(rng, cfg):
    if rng.random() < 0.5 and any(p in cfg.prims for p in ("int64", "float64")):
        return Prim(rng.choice([p for p in ("int64", "float64") if p in cfg.prims]))
    return Prim(rng.choice(cfg.prims))


def rand_type(rng, cfg, depth=0, inopt=False, inunion=False, unk=True):
    """Type of the items of an array."""
    r = rng.random()
    if depth >= cfg.maxdepth or (depth > 0 and r < 0.3):
        leafs = ["prim"] * 6
        if cfg.strings:
            leafs.append("str")
        if cfg.bytestrings and rng.random() < 0.3:
            leafs.append("bytes")
        k = rng.choice(leafs)
        if k == "str":
            return STR
        if k == "bytes":
            return BYTES
        return rand_prim(rng, cfg)
    opts = ["prim"]
    if cfg.lists:
        opts += ["list"] * 5
    if cfg.regular:
        opts += ["reg"] * 2
    if cfg.options and not inopt:
        opts += ["opt"] * 3
    if cfg.records:
        opts += ["rec"] * 2
    if cfg.unions and not inunion and not inopt and depth < 3:
        opts += ["uni"]
    if cfg.strings:
        opts += ["str"]
    if cfg.empty and unk and rng.random() < 0.2:
        opts += ["unk"]
    k = rng.choice(opts)
    if k == "prim":
        return rand_prim(rng, cfg)
    if k == "str":
        return STR
    if k == "unk":
        return UNK
    if k == "list":
        return Lst(rand_type(rng, cfg, depth + 1))      # may be of unknown type (EmptyArray)
    if k == "reg":
        size = rng.choice([1, 1, 2, 2, 3, 4, 5, 7] if rng.random() < 0.4 else [1, 2, 3] + ([0] if cfg.zero_size_regular else []))
        return Reg(rand_type(rng, cfg, depth + 1, unk=False), size)
    if k == "opt":
        return Opt(rand_type(rng, cfg, depth + 0.5, inopt=True, unk=False))
    if k == "rec":
        n = rng.choice([1, 2, 2, 3])
        if cfg.tuples and rng.random() < 0.3:
            fields = None
        else:
            fields = list(cfg.keys[:n])
            n = len(fields)
        name = rng.choice(cfg.names) if cfg.names and rng.random() < 0.5 else None
        return Rec(fields, [rand_type(rng, cfg, depth + 1, unk=False) for _ in range(n)], name)
    # union of kinds that cannot be merged with one another
    kinds = ["num", "list"]
    if cfg.strings and cfg.uni_strings:
        kinds.append("str")
    if cfg.records:
        kinds.append("rec")
    rng.shuffle(kinds)
    kinds = kinds[: rng.choice([2, 2, 3])]
    cs = []
    sub = cfg.but(unions=False)
    for kk in kinds:
        if kk == "num":
            cs.append(rand_prim(rng, cfg.but(prims=[p for p in cfg.prims if p != "bool"] or cfg.prims)))
        elif kk == "str":
            cs.append(STR)
        elif kk == "list":
            cs.append(Lst(rand_type(rng, sub, depth + 2, inunion=True)))
        else:
            cs.append(Rec(["u"], [rand_type(rng, sub, depth + 2, inunion=True, unk=False)]))
    return Uni(cs)


def rand_len(rng, cfg):
    if rng.random() < cfg.biglen:
        if cfg.huge and rng.random() < cfg.huge:
            return rng.choice([127, 129, 200, 257, 300, 600])
        return rng.choice([9, 15, 16, 17, 25, 33, 64, 65])
    return rng.randint(0, cfg.maxlen)


CHARS = ["a", "b", "ab", "", "c", "\u00e9", "\u03b1\u03b2", "zz", "\U0001f600", " ", "0", "A"]


def rand_prim_value(rng, dtype, cfg):
    if dtype == "bool":
        return rng.random() < 0.5
    if dtype.startswith(("datetime64", "timedelta64")):
        if rng.random() < 0.15:
            n = rng.choice([-2**63, 1622714400123456789 if dtype.endswith("[ns]") else 1622714400123456 if dtype.endswith("[us]") else 16227])
            return np.dtype(dtype).type(n, dtype[dtype.index("[") + 1:-1])
        return np.dtype(dtype).type(rng.randint(-3, 6) * rng.choice([1, 1, 100]), dtype[dtype.index("[") + 1:-1])
    if dtype.startswith("complex"):
        return complex(rng.randint(-3, 3), rng.randint(-3, 3))
    if dtype.startswith("float"):
        if cfg.nan and rng.random() < 0.12:
            return rng.choice([float("nan"), float("inf"), float("-inf"), -0.0])
        if rng.random() < cfg.extremes:
            return rng.choice([1e6, -1e6, 123456.5, 0.25, -0.125])
        return rng.randint(-6, 8) * cfg.float_step
    info = np.iinfo(dtype)
    if rng.random() < cfg.extremes:
        return int(rng.choice([info.min, info.max, info.max - 1, info.max // 2]))
    lo = max(int(info.min), -4)
    return rng.randint(lo, 6)


def rand_value(rng, ty, cfg):
    k = ty.kind
    if k == "prim":
        return rand_prim_value(rng, ty.dtype, cfg)
    if k == "str":
        return "".join(rng.choice(CHARS) for _ in range(rng.choice([0, 1, 1, 2, 3])))
    if k == "bytes":
        return bytes(rng.randint(0, 255) if rng.random() < 0.3 else rng.choice([97, 98, 0]) for _ in range(rng.choice([0, 1, 2, 3])))
    if k == "list":
        if ty.content.kind == "unk":
            return []
        n = rng.choice([0, 0, 1, 1, 2, 2, 3, 4]) if rng.random() >= cfg.biglen else rng.randint(5, 20)
        if n >= 18 and cfg.huge and ty.content.kind in ("prim", "opt", "uni") and rng.random() < cfg.huge:
            n = rng.choice([130, 257, 280])
        return [rand_value(rng, ty.content, cfg) for _ in range(n)]
    if k == "reg":
        if ty.content.kind == "unk":
            return []
        return [rand_value(rng, ty.content, cfg) for _ in range(ty.size)]
    if k == "opt":
        if rng.random() < 0.3:
            return None
        return rand_value(rng, ty.content, cfg)
    if k == "rec":
        return [rand_value(rng, c, cfg) for c in ty.contents]
    if k == "uni":
        t = rng.randrange(len(ty.contents))
        return U(t, rand_value(rng, ty.contents[t], cfg))
    raise AssertionError(k)


def fix_unk(ty, top=True):
    """Regular-of-unknown must have size 0; records etc. with unknown only in lists."""
    return ty


def rand_values(rng, ty, cfg, n=None):
    if n is None:
        n = rand_len(rng, cfg)
    if ty.kind == "unk":
        return []
    mode = rng.random()
    if ty.kind == "opt" and mode < 0.08:
        return [None] * n
    if ty.kind == "list" and mode < 0.05:
        return [[] for _ in range(n)]
    return [rand_value(rng, ty, cfg) for _ in range(n)]


# ----------------------------------------------------------------- layouts

INDEX = {"32": (L.Index32, np.int32), "U32": (L.IndexU32, np.uint32), "64": (L.Index64, np.int64),
         "8": (L.Index8, np.int8), "U8": (L.IndexU8, np.uint8)}


REGISTRY = None     # when a list: every buffer allocated for a layout is appended to it


def reg_buffer(a):
    if REGISTRY is not None:
        while isinstance(a.base, np.ndarray):
            a = a.base
        REGISTRY.append(a)


def mkindex(kind, vals, rng=None, cfg=None):
    cls, dt = INDEX[kind]
    a = np.array(vals, dtype=dt)
    if rng is not None and cfg is not None and rng.random() < cfg.sliced:
        # an Index that is a window of a bigger buffer
        pre, post = rng.randint(0, 2), rng.randint(0, 2)
        b = np.concatenate([np.full(pre, 3, dt), a, np.full(post, 2, dt)])
        reg_buffer(b)
        return cls(b)[pre:pre + len(a)]
    reg_buffer(a)
    return cls(a)


def mknumpy(arr, rng, cfg, params=None):
    """NumpyArray with the contents of arr, randomly strided / offset."""
    if arr.ndim >= 1 and rng.random() < cfg.strided:
        r = rng.randint(0, 3)
        if r == 0:                                  # step along the first axis
            step = rng.choice([2, 3])
            big = np.empty((arr.shape[0] * step,) + arr.shape[1:], arr.dtype)
            if big.dtype.kind in "Mm":
                big[...] = np.array(1, "i8").view(big.dtype)
            else:
                big[...] = 1
            big[::step] = arr
            arr = big[::step]
        elif r == 1:                                # negative stride
            arr = np.ascontiguousarray(arr[::-1])[::-1]
        elif r == 2 and arr.ndim > 1:               # Fortran order
            arr = np.asfortranarray(arr)
        else:                                       # window of a bigger buffer
            pre, post = rng.randint(0, 2), rng.randint(0, 2)
            big = np.ones((arr.shape[0] + pre + post,) + arr.shape[1:], arr.dtype) if arr.dtype.kind not in "Mm" else np.zeros((arr.shape[0] + pre + post,) + arr.shape[1:], arr.dtype)
            big[pre:pre + arr.shape[0]] = arr
            arr = big[pre:pre + arr.shape[0]]
    reg_buffer(arr)
    if params:
        return L.NumpyArray(arr, parameters=params)
    return L.NumpyArray(arr)


def prim_np(ty, vals):
    return np.array(vals, dtype=ty.dtype)


def make_simple(ty, vals, params=None):
    """The plain canonical layout (contiguous, 64-bit, zero-based)."""
    return make(ty, vals, None, None)


def wrap_params(ty):
    return {"__record__": ty.name} if ty.kind == "rec" and ty.name else None


class _NoRng(object):
    def random(self): return 0.999999
    def randint(self, a, b): return a
    def choice(self, xs): return xs[0]
    def randrange(self, n): return 0
    def shuffle(self, xs): pass
    def sample(self, xs, n): return list(xs)[:n]


SIMPLE = Cfg(indexed=0, virtual=0, slack=0, strided=0, numpynd=0, sliced=0)


class VCache(dict):
    pass


KEEP = []   # caches of virtual arrays are weakly referenced by the library


def make(ty, vals, rng, cfg, nowrap=False):
    """A layout of type `ty` whose items are `vals` (in U-tagged form)."""
    if rng is None:
        rng, cfg = _NoRng(), SIMPLE
    if cfg.virtual and ty.kind != "unk" and rng.random() < cfg.virtual:
        inner = make(ty, vals, rng, cfg.but(virtual=cfg.virtual * 0.3), nowrap)
        form = inner.form if rng.random() < 0.6 else None
        length = len(inner) if rng.random() < 0.6 else None
        if form is not None and "VirtualArray" in repr(inner):
            form = None
        gen = L.ArrayGenerator(lambda: inner, form=form, length=length)
        if rng.random() < 0.7:
            d = VCache()
            KEEP.append(d)
            return L.VirtualArray(gen, L.ArrayCache(d))
        return L.VirtualArray(gen, None)
    if cfg.sliced and ty.kind not in ("unk",) and rng.random() < cfg.sliced * 0.5:
        # build more items than needed and take a range of them
        pre, post = rng.randint(0, 2), rng.randint(0, 2)
        gcfg = cfg
        allv = [rand_value(rng, ty, gcfg) for _ in range(pre)] + list(vals) + [rand_value(rng, ty, gcfg) for _ in range(post)]
        out = make(ty, allv, rng, cfg.but(sliced=0, virtual=0), nowrap)
        return out[pre:pre + len(vals)]
    k = ty.kind
    wrapok = not nowrap and k != "opt" and k != "uni"
    if wrapok and cfg.indexed and k != "unk" and rng.random() < cfg.indexed:
        content, index = scatter(ty, vals, rng, cfg)
        kind = rng.choice(["32", "U32", "64", "64"])
        cls = {"32": L.IndexedArray32, "U32": L.IndexedArrayU32, "64": L.IndexedArray64}[kind]
        return cls(mkindex(kind, index, rng, cfg), make(ty, content, rng, cfg, nowrap=True))
    if k == "prim":
        return mknumpy(prim_np(ty, vals), rng, cfg)
    if k == "unk":
        return L.EmptyArray()
    if k in ("str", "bytes"):
        return make_string(k, vals, rng, cfg)
    if k == "list":
        return make_list(ty, vals, rng, cfg)
    if k == "reg":
        return make_regular(ty, vals, rng, cfg)
    if k == "opt":
        return make_option(ty, vals, rng, cfg)
    if k == "rec":
        n = len(vals)
        contents = []
        for j, c in enumerate(ty.contents):
            sub = [v[j] for v in vals]
            if c.kind != "unk" and rng.random() < cfg.slack * 0.5:
                sub = sub + [rand_value(rng, c, cfg) for _ in range(rng.randint(0, 2))]
            contents.append(make(c, sub, rng, cfg))
        keys = ty.fields
        p = wrap_params(ty)
        return L.RecordArray(contents, keys, n, parameters=p) if p else L.RecordArray(contents, keys, n)
    if k == "uni":
        return make_union(ty, vals, rng, cfg)
    raise AssertionError(k)


def vkey(v):
    if isinstance(v, U):
        return ("U", v.tag, vkey(v.v))
    if isinstance(v, list):
        return tuple(vkey(x) for x in v)
    return (type(v).__name__, repr(v))


def scatter(ty, vals, rng, cfg):
    """Content values and index such that content[index[i]] is vals[i] (None -> no slot)."""
    content, index, seen = [], [-1] * len(vals), {}
    order = [i for i, v in enumerate(vals) if v is not None]
    rng.shuffle(order)
    share = rng.random() < 0.5
    for i in order:
        if cfg.slack and rng.random() < cfg.slack * 0.3:
            content.append(rand_value(rng, ty, cfg))
        if share:
            kk = vkey(vals[i])
            if kk in seen:
                index[i] = seen[kk]
                continue
            seen[kk] = len(content)
        index[i] = len(content)
        content.append(vals[i])
    if cfg.slack and rng.random() < cfg.slack * 0.5:
        content.append(rand_value(rng, ty, cfg))
    return content, index


def list_parts(ty, vals, rng, cfg):
    """Either ("offsets", offsets, content) or ("startstop", starts, stops, content)."""
    c = ty.content
    slack = cfg.slack and c.kind != "unk"

    def junk(n):
        return [rand_value(rng, c, cfg) for _ in range(rng.randint(0, n))] if slack and rng.random() < cfg.slack else []
    if rng.random() >= 0.5 or isinstance(rng, _NoRng):
        flat = junk(3)
        offsets = [len(flat)]
        for v in vals:
            flat.extend(v)
            offsets.append(len(flat))
        flat.extend(junk(3))
        return "offsets", offsets, None, flat
    order = list(range(len(vals)))
    if rng.random() < 0.7:
        rng.shuffle(order)
    starts, stops, flat, seen = [0] * len(vals), [0] * len(vals), [], {}
    share = rng.random() < 0.4
    flat.extend(junk(2))
    for i in order:
        v = vals[i]
        if share:
            kk = vkey(v)
            if kk in seen:
                starts[i], stops[i] = seen[kk]
                continue
        starts[i] = len(flat)
        flat.extend(v)
        stops[i] = len(flat)
        if share:
            seen[kk] = (starts[i], stops[i])
        flat.extend(junk(2) if rng.random() < 0.3 else [])
    if slack:
        for i, v in enumerate(vals):
            if len(v) == 0 and rng.random() < 0.3:
                starts[i] = stops[i] = rng.randint(0, len(flat))
    return "startstop", starts, stops, flat


def build_list(parts, content, rng, cfg, params=None):
    how, a, b, _ = parts
    kind = rng.choice(["64", "64", "32", "U32"])
    kw = {"parameters": params} if params else {}
    if how == "offsets":
        cls = {"32": L.ListOffsetArray32, "U32": L.ListOffsetArrayU32, "64": L.ListOffsetArray64}[kind]
        return cls(mkindex(kind, a, rng, cfg), content, **kw)
    cls = {"32": L.ListArray32, "U32": L.ListArrayU32, "64": L.ListArray64}[kind]
    bb = list(b)
    if cfg.slack and rng.random() < cfg.slack * 0.3:
        bb = bb + [0] * rng.randint(0, 2)
    return cls(mkindex(kind, a, rng, cfg), mkindex(kind, bb, rng, cfg), content, **kw)


def make_list(ty, vals, rng, cfg):
    parts = list_parts(ty, vals, rng, cfg)
    return build_list(parts, make(ty.content, parts[3], rng, cfg), rng, cfg)


def make_string(kind, vals, rng, cfg):
    enc = [v.encode("utf-8") if kind == "str" else v for v in vals]
    char, name = ("char", "string") if kind == "str" else ("byte", "bytestring")
    bt = Lst(Prim("uint8"))
    if cfg.regular and cfg.regstr and rng.random() < 0.1 and enc and len(set(map(len, enc))) == 1 and len(enc[0]) > 0:
        content = L.NumpyArray(np.frombuffer(b"".join(enc), np.uint8).copy(), parameters={"__array__": char})
        return L.RegularArray(content, len(enc[0]), parameters={"__array__": name})
    parts = list_parts(bt, [list(e) for e in enc], rng, cfg.but(extremes=0, smallvals=True))
    content = mknumpy(np.array(parts[3], np.uint8), rng, cfg.but(strided=cfg.strided * 0.5), params={"__array__": char})
    return build_list(parts, content, rng, cfg, params={"__array__": name})


def nd_ok(ty):
    dims = []
    while ty.kind == "reg":
        dims.append(ty.size)
        ty = ty.content
    return (dims, ty) if ty.kind == "prim" else (None, None)


def make_regular(ty, vals, rng, cfg):
    if cfg.numpynd and rng.random() < cfg.numpynd:
        dims, leaf = nd_ok(ty)
        if dims is not None:
            arr = np.array(vals, dtype=leaf.dtype).reshape([len(vals)] + dims)
            return mknumpy(arr, rng, cfg)
    flat = [x for v in vals for x in v]
    c = ty.content
    if ty.size > 1 and c.kind != "unk" and cfg.slack and rng.random() < cfg.slack * 0.4:
        flat = flat + [rand_value(rng, c, cfg) for _ in range(rng.randint(0, ty.size - 1))]
    if ty.size == 0 and c.kind != "unk" and cfg.slack and rng.random() < cfg.slack * 0.3:
        flat = [rand_value(rng, c, cfg) for _ in range(rng.randint(0, 2))]
    return L.RegularArray(make(c, flat, rng, cfg), ty.size, len(vals))


def make_option(ty, vals, rng, cfg):
    c = ty.content
    missing = [v is None for v in vals]
    how = rng.choice(["index", "index", "byte", "bit"] + (["unmasked"] * 2 if not any(missing) else []))
    if how == "index":
        content, index = scatter(c, vals, rng, cfg)
        if cfg.slack:
            index = [i if i >= 0 else -rng.choice([1, 1, 2, 5]) for i in index]
        kind = rng.choice(["64", "64", "32"])
        cls = {"32": L.IndexedOptionArray32, "64": L.IndexedOptionArray64}[kind]
        return cls(mkindex(kind, index, rng, cfg), make(c, content, rng, cfg, nowrap=not (cfg.nonsimple and rng.random() < cfg.nonsimple)))
    content = [rand_value(rng, c, cfg) if v is None else v for v in vals]
    extra = rng.randint(0, 2) if cfg.slack and rng.random() < cfg.slack * 0.4 else 0
    inner = make(c, content + [rand_value(rng, c, cfg) for _ in range(extra)], rng, cfg,
                 nowrap=not (cfg.nonsimple and rng.random() < cfg.nonsimple))
    if how == "unmasked":
        return L.UnmaskedArray(inner[:len(vals)] if extra else inner)
    vw = rng.choice([True, False])
    if how == "byte":
        mask = []
        for m in missing:
            b = (not m) == vw
            mask.append(rng.choice([1, 1, 1, 7, -1]) if b and cfg.slack and vw is not None and False else (1 if b else 0))
        return L.ByteMaskedArray(mkindex("8", mask, rng, cfg), inner, valid_when=vw)
    lsb = rng.choice([True, False])
    bits = [(not m) == vw for m in missing]
    while len(bits) % 8:
        bits.append(rng.random() < 0.5)
    if cfg.slack and rng.random() < 0.2:
        bits.extend([rng.random() < 0.5 for _ in range(8)])
    packed = np.packbits(np.array(bits, bool), bitorder="little" if lsb else "big") if bits else np.zeros(0, np.uint8)
    return L.BitMaskedArray(mkindex("U8", packed.tolist(), rng, cfg), inner, valid_when=vw, length=len(vals), lsb_order=lsb)


def make_union(ty, vals, rng, cfg):
    n = len(vals)
    tags = [v.tag for v in vals]
    index = [0] * n
    contents = []
    for t, c in enumerate(ty.contents):
        pos = [i for i in range(n) if tags[i] == t]
        cv, ix = scatter(c, [vals[i].v for i in pos], rng, cfg) if c.kind != "opt" else ([vals[i].v for i in pos], list(range(len(pos))))
        for i, j in zip(pos, ix):
            index[i] = j
        contents.append(make(c, cv, rng, cfg))
    kind = rng.choice(["64", "64", "32", "U32"])
    cls = {"32": L.UnionArray8_32, "U32": L.UnionArray8_U32, "64": L.UnionArray8_64}[kind]
    return cls(mkindex("8", tags, rng, cfg), mkindex(kind, index, rng, cfg), contents)


def make_top(ty, vals, rng, cfg):
    """Layout for use at top level: possibly canonical, possibly partitioned."""
    if rng.random() < cfg.simple:
        return make(ty, vals, None, None)
    if cfg.partitioned and rng.random() < cfg.partitioned and ty.kind != "unk":
        cuts = sorted(rng.randint(0, len(vals)) for _ in range(rng.randint(0, 3)))
        bounds = [0] + cuts + [len(vals)]
        parts = [make(ty, vals[a:b], rng, cfg) for a, b in zip(bounds[:-1], bounds[1:])]
        return ak.partition.IrregularlyPartitionedArray(parts)
    return make(ty, vals, rng, cfg)


# ------------------------------------------------------------------ decoder

def decode(x):
    """The Python value an awkward layout (or array, record, scalar) stands for, read
    from its raw buffers."""
    if isinstance(x, ak.highlevel.Array) or isinstance(x, ak.highlevel.Record):
        x = x.layout
        if isinstance(x, L.NumpyArray) and x.parameter("__array__") in ("char", "byte"):      # one string, as a CharBehavior
            raw = np.asarray(x).tobytes()
            return raw.decode("utf-8", "surrogateescape") if x.parameter("__array__") == "char" else raw
    if isinstance(x, ak.partition.PartitionedArray):
        return [v for p in x.partitions for v in decode(p)]
    if isinstance(x, L.Record):
        arr = x.array
        return decode(arr)[x.at]
    if isinstance(x, L.Content):
        return _decode(x)
    if isinstance(x, np.ma.MaskedArray):
        try:
            return x.tolist()
        except IndexError:      # NumPy cannot list a masked structured array of this shape
            return [x.shape, str(x.dtype)]
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (np.datetime64, np.timedelta64)):
        return x
    if isinstance(x, np.generic):
        return x.item()
    return x


def rawnumpy(x):
    """NumPy view of a NumpyArray's data (dates have no buffer-protocol format)."""
    if x.format[:1] in "Mm":
        return np.asarray(x.view_int64).view(x.format)
    return np.asarray(x)


def npvals(a):
    if a.dtype.kind in "Mm":
        def rec(b):
            return [rec(y) for y in b] if b.ndim > 1 else list(b)
        return rec(a)
    return a.tolist()


def _decode(x):
    n = len(x)
    if isinstance(x, L.NumpyArray):
        a = rawnumpy(x)
        if a.ndim == 0:
            return a.item()
        arr = x.parameter("__array__")
        return npvals(a)
    if isinstance(x, L.EmptyArray):
        return []
    if isinstance(x, L.VirtualArray):
        return _decode(x.array)
    if isinstance(x, (L.ListArray32, L.ListArrayU32, L.ListArray64)):
        starts, stops = np.asarray(x.starts).tolist(), np.asarray(x.stops).tolist()
        return _strings(x, [(s, e) for s, e in zip(starts, stops)])
    if isinstance(x, (L.ListOffsetArray32, L.ListOffsetArrayU32, L.ListOffsetArray64)):
        o = np.asarray(x.offsets).tolist()
        return _strings(x, list(zip(o[:-1], o[1:])))
    if isinstance(x, L.RegularArray):
        sz = x.size
        return _strings(x, [(i * sz, (i + 1) * sz) for i in range(n)])
    if isinstance(x, (L.IndexedArray32, L.IndexedArrayU32, L.IndexedArray64)):
        c = _decode(x.content)
        return [c[i] for i in np.asarray(x.index).tolist()]
    if isinstance(x, (L.IndexedOptionArray32, L.IndexedOptionArray64)):
        c = _decode(x.content)
        return [c[i] if i >= 0 else None for i in np.asarray(x.index).tolist()]
    if isinstance(x, L.ByteMaskedArray):
        c = _decode(x.content)
        m = np.asarray(x.mask).tolist()
        vw = x.valid_when
        return [c[i] if (m[i] != 0) == vw else None for i in range(n)]
    if isinstance(x, L.BitMaskedArray):
        c = _decode(x.content)
        bits = np.unpackbits(np.asarray(x.mask).view(np.uint8), bitorder="little" if x.lsb_order else "big")
        vw = x.valid_when
        return [c[i] if bool(bits[i]) == vw else None for i in range(n)]
    if isinstance(x, L.UnmaskedArray):
        return _decode(x.content)
    if isinstance(x, L.RecordArray):
        cols = [_decode(c) for c in x.contents]
        if x.istuple:
            return [tuple(c[i] for c in cols) for i in range(n)]
        keys = x.keys()
        return [{k: c[i] for k, c in zip(keys, cols)} for i in range(n)]
    if isinstance(x, (L.UnionArray8_32, L.UnionArray8_U32, L.UnionArray8_64)):
        cs = [_decode(c) for c in x.contents]
        tags, index = np.asarray(x.tags).tolist(), np.asarray(x.index).tolist()
        return [cs[t][i] for t, i in zip(tags, index)]
    raise AssertionError(type(x))


def _strings(x, ranges):
    arr = x.parameter("__array__")
    c = _decode(x.content)
    for s, e in ranges:
        if s != e and (s < 0 or e > len(c) or s > e):
            raise DecodeError("list range [%d,%d) outside content of length %d" % (s, e, len(c)))
    if arr in ("string", "bytestring") and any(type(y) is not int for y in c):
        arr = None      # e.g. a newaxis among the characters
    if arr == "string":
        return [bytes(c[s:e]).decode("utf-8", "surrogateescape") if e > s else "" for s, e in ranges]
    if arr == "bytestring":
        return [bytes(c[s:e]) if e > s else b"" for s, e in ranges]
    return [c[s:e] if e > s else [] for s, e in ranges]


class DecodeError(Exception):
    pass


# ---------------------------------------------------------------- comparison

def same(a, b, loose=False):
    """Equality of decoded values, distinguishing bool/int/float/None and NaN == NaN."""
    ta, tb = type(a), type(b)
    if ta is not tb:
        if loose and isinstance(a, (int, float, bool)) and isinstance(b, (int, float, bool)):
            return a == b or (a != a and b != b)
        return False
    if ta is list or ta is tuple:
        return len(a) == len(b) and all(same(x, y, loose) for x, y in zip(a, b))
    if ta is dict:
        return list(a.keys()) == list(b.keys()) and all(same(a[k], b[k], loose) for k in a)
    if ta is float:
        return a == b or (a != a and b != b)
    if ta is complex:
        return same(a.real, b.real) and same(a.imag, b.imag)
    return bool(a == b) or bool(a != a and b != b)


def close(a, b, tol=1e-9):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(close(a[k], b[k], tol) for k in a)
    if isinstance(a, (int, float, bool)) and isinstance(b, (int, float, bool)):
        if a != a or b != b:
            return a != a and b != b
        if a == b:
            return True
        if math.isinf(a) or math.isinf(b):
            return False
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    if isinstance(a, (int, float, bool, complex)) and isinstance(b, (int, float, bool, complex)):
        return close(a.real, b.real, tol) and close(a.imag, b.imag, tol)
    if isinstance(a, (np.datetime64, np.timedelta64)):
        return type(a) is type(b) and (bool(a == b) or bool(a != a and b != b))
    return type(a) is type(b) and a == b


def describe(layout):
    """Short signature of a layout: node classes from the outside in."""
    if isinstance(layout, ak.partition.PartitionedArray):
        return "P[" + ";".join(describe(p) for p in layout.partitions) + "]"
    n = type(layout).__name__
    short = n.replace("Array", "")
    if isinstance(layout, L.RecordArray):
        return "Rec(" + ",".join(describe(c) for c in layout.contents) + ")"
    if n.startswith("Union"):
        return short + "(" + ",".join(describe(c) for c in layout.contents) + ")"
    if isinstance(layout, L.NumpyArray):
        a = rawnumpy(layout)
        return "N%d%s%s" % (a.ndim, a.dtype.str[1:], "" if a.flags.c_contiguous else "s")
    if isinstance(layout, L.EmptyArray):
        return "E"
    if isinstance(layout, L.VirtualArray):
        return "V"
    if isinstance(layout, L.RegularArray):
        return "Reg%d(" % layout.size + describe(layout.content) + ")"
    if isinstance(layout, (L.ByteMaskedArray,)):
        return "Byte%d(" % layout.valid_when + describe(layout.content) + ")"
    if isinstance(layout, (L.BitMaskedArray,)):
        return "Bit%d%d(" % (layout.valid_when, layout.lsb_order) + describe(layout.content) + ")"
    return short + "(" + describe(layout.content) + ")"
