"""C24: compiled kernels against the reference definitions of kernel-specification.yml."""
import ctypes
import math
import os

import numpy as np
import yaml

from vlib.worker import Violation, Skip
import awkward as ak

META = {
    "property": "C24",
    "technique": "runtime monitor: each compiled kernel (ASan/UBSan build) is called on generated buffers of exact size and compared with the published Python definition executed on bounds-checked, access-recording lists",
    "cases": {"quick": 20000, "thorough": 280000},
    "rule": "Oracle: the Python definition in kernel-specification.yml (success/failure, every output element it writes, no other element of the output buffers changed; AddressSanitizer guards the ends). Definitions that are absent or cannot run as Python are listed in OVERRIDES/ABSENT.",
    "assumptions": ["inputs are ones the definition itself can process: it reads only inside the buffers it is given"],
}

REPO = os.environ.get("VERIF_REPO", "/repo")
CT = {"bool": ctypes.c_bool, "int8_t": ctypes.c_int8, "uint8_t": ctypes.c_uint8, "int16_t": ctypes.c_int16,
      "uint16_t": ctypes.c_uint16, "int32_t": ctypes.c_int32, "uint32_t": ctypes.c_uint32,
      "int64_t": ctypes.c_int64, "uint64_t": ctypes.c_uint64, "float": ctypes.c_float, "double": ctypes.c_double}
NP = {"bool": np.bool_, "int8_t": np.int8, "uint8_t": np.uint8, "int16_t": np.int16, "uint16_t": np.uint16,
      "int32_t": np.int32, "uint32_t": np.uint32, "int64_t": np.int64, "uint64_t": np.uint64,
      "float": np.float32, "double": np.float64}


class Error(ctypes.Structure):
    _fields_ = [("str", ctypes.c_void_p), ("filename", ctypes.c_void_p), ("identity", ctypes.c_int64),
                ("attempt", ctypes.c_int64), ("pass_through", ctypes.c_bool)]


class Outside(Exception):
    """The definition itself leaves its buffers: not an allowed input."""


def cast(v, t):
    if t == "bool":
        return bool(v)
    if t in ("float", "double"):
        return float(np.float32(v)) if t == "float" else float(v)
    if isinstance(v, (float, np.floating)):
        if not math.isfinite(v):
            raise Outside()
        info = np.iinfo(NP[t])
        if not (info.min <= v <= info.max):
            raise Outside()                       # undefined behaviour in C
    v = int(v)
    bits = NP[t]().itemsize * 8
    v &= (1 << bits) - 1
    if not t.startswith("u") and v >= 1 << (bits - 1):
        v -= 1 << bits
    return v


class In(object):
    """Input buffer: remembers how far it was read."""
    def __init__(self, vals, t):
        self.v, self.t, self.hi = [cast(x, t) for x in vals], t, 0

    def __getitem__(self, i):
        i = int(i)
        if i < 0 or i >= len(self.v):
            raise Outside()
        if i + 1 > self.hi:
            self.hi = i + 1
        return self.v[i]

    def __setitem__(self, i, x):
        raise Outside()


class Out(object):
    """Output buffer, possibly initialised (some kernels update in place)."""
    LIMIT = 4000

    def __init__(self, t, init=None):
        self.t, self.init = t, init
        self.d = {}
        self.written = set()
        if init is not None:
            self.d = {i: cast(x, t) for i, x in enumerate(init)}

    def __getitem__(self, i):
        i = int(i)
        if i not in self.d:
            raise Outside()
        return self.d[i]

    def __setitem__(self, i, x):
        i = int(i)
        if i < 0 or i > self.LIMIT:
            raise Outside()
        self.d[i] = cast(x, self.t)
        self.written.add(i)


class InPtrs(object):
    def __init__(self, lists):
        self.v, self.hi = lists, 0

    def __getitem__(self, i):
        if i < 0 or i >= len(self.v):
            raise Outside()
        return self.v[i]


def regularize(start, stop, posstep, hasstart, hasstop, length):
    if posstep:
        s = 0 if not hasstart else start + length if start < 0 else start
        e = length if not hasstop else stop + length if stop < 0 else stop
        s = min(max(s, 0), length)
        e = min(max(e, 0), length)
        if e < s:
            e = s
    else:
        s = length - 1 if not hasstart else start + length if start < 0 else start
        e = -1 if not hasstop else stop + length if stop < 0 else stop
        s = min(max(s, -1), length - 1)
        e = min(max(e, -1), length - 1)
        if e > s:
            e = s
    return s, e


kMaxInt64 = 9223372036854775806
kSliceNone = kMaxInt64 + 1


def o_next_range(tooffsets, tocarry, fromstarts, fromstops, lenstarts, start, stop, step):
    k = 0
    tooffsets[0] = 0
    for i in range(lenstarts):
        a, b = regularize(start, stop, step > 0, start != kSliceNone, stop != kSliceNone, fromstops[i] - fromstarts[i])
        for j in range(a, b, step):
            tocarry[k] = fromstarts[i] + j
            k += 1
        tooffsets[i + 1] = k


def o_next_range_carrylength(carrylength, fromstarts, fromstops, lenstarts, start, stop, step):
    carrylength[0] = 0
    for i in range(lenstarts):
        a, b = regularize(start, stop, step > 0, start != kSliceNone, stop != kSliceNone, fromstops[i] - fromstarts[i])
        carrylength[0] = carrylength[0] + len(range(a, b, step))


def o_numvalid(numvalid, slicestarts, slicestops, length, missing, missinglength):
    numvalid[0] = 0
    for i in range(length):
        a, b = slicestarts[i], slicestops[i]
        if a != b:
            if b < a or b > missinglength:
                raise ValueError
            for j in range(a, b):
                numvalid[0] = numvalid[0] + (1 if missing[j] >= 0 else 0)


def o_missing_repeat(outindex, index, indexlength, repetitions, regularsize):
    for i in range(repetitions):
        for j in range(indexlength):
            base = index[j]
            outindex[i * indexlength + j] = base + (i * regularsize if base >= 0 else 0)


def o_index_carry(toindex, fromindex, carry, lenfromindex, length):
    # the published text says "j > lenfromindex", which would read one element too far
    for i in range(length):
        j = carry[i]
        if j >= lenfromindex:
            raise ValueError
        toindex[i] = fromindex[j]


def o_ranges_next(index, fromstarts, fromstops, length, tostarts, tostops, tolength):
    k = 0
    for i in range(length):
        tostarts[i] = k
        for j in range(fromstops[i] - fromstarts[i]):
            if index[fromstarts[i] + j] >= 0:
                k += 1
        tostops[i] = k
    tolength[0] = k


def o_ranges_carry(index, fromstarts, fromstops, length, tocarry):
    k = 0
    for i in range(length):
        for j in range(fromstops[i] - fromstarts[i]):
            if index[fromstarts[i] + j] >= 0:
                tocarry[k] = index[fromstarts[i] + j]
                k += 1


def o_ravel(toptr, fromptr, ndim, shape, strides):
    import itertools
    shp = [shape[d] for d in range(ndim)]
    st = [strides[d] for d in range(ndim)]
    for k, ix in enumerate(itertools.product(*[range(n) for n in shp])):
        toptr[k] = fromptr[sum(a * b for a, b in zip(ix, st))]


def o_tobool(toptr, tooffset, fromptr, length):
    for i in range(length):
        toptr[tooffset + i] = bool(fromptr[i] != 0)


# definitions the published file leaves out
def o_sorting_ranges_length(tolength, parents, parentslength):
    n = 2
    for i in range(1, parentslength):
        if parents[i - 1] != parents[i]:
            n += 1
    tolength[0] = n


def o_sorting_ranges(toindex, tolength, parents, parentslength):
    toindex[0] = 0
    k = 1
    for i in range(1, parentslength):
        if parents[i - 1] != parents[i]:
            toindex[k] = i
            k += 1
    toindex[tolength - 1] = parentslength


def o_tocomplex(toptr, tooffset, fromptr, length):
    for i in range(length):
        toptr[tooffset + i * 2] = fromptr[i]
        toptr[tooffset + i * 2 + 1] = 0


def cplx(f, init, post=None):
    def g(toptr, fromptr, parents, lenparents, outlength, *rest):
        acc = [init] * outlength
        for i in range(lenparents):
            p = parents[i]
            if p < 0 or p >= outlength:
                raise Outside()
            acc[p] = f(acc[p], complex(fromptr[2 * i], fromptr[2 * i + 1]), i)
        for i, a in enumerate(acc):
            if post is None:
                toptr[2 * i], toptr[2 * i + 1] = a.real, a.imag
            else:
                toptr[i] = post(a)
    return g


def key(z):
    return (z.real, z.imag)


def o_prepare(tocarry, fromindex, length):
    order = sorted(range(length), key=lambda i: fromindex[i])
    for k, i in enumerate(order):
        tocarry[k] = i


OVERRIDES = {
    "awkward_ListArray_getitem_next_range": o_next_range,
    "awkward_ListArray_getitem_next_range_carrylength": o_next_range_carrylength,
    "awkward_ListArray_getitem_jagged_numvalid": o_numvalid,
    "awkward_missing_repeat": o_missing_repeat,
    "awkward_index_carry": o_index_carry,
    "awkward_IndexedArray_ranges_next_64": o_ranges_next,
    "awkward_IndexedArray_ranges_carry_next_64": o_ranges_carry,
    "awkward_slicearray_ravel": o_ravel,
    "awkward_sorting_ranges": o_sorting_ranges,
    "awkward_sorting_ranges_length": o_sorting_ranges_length,
    "awkward_NumpyArray_fill_tocomplex": o_tocomplex,
    "awkward_reduce_sum_complex": cplx(lambda a, z, i: a + z, 0j),
    "awkward_reduce_prod_complex": cplx(lambda a, z, i: a * z, 1 + 0j),
    "awkward_reduce_sum_bool_complex": cplx(lambda a, z, i: a or z != 0, False, bool),
    "awkward_reduce_prod_bool_complex": cplx(lambda a, z, i: a and z != 0, True, bool),
    "awkward_reduce_countnonzero_complex": cplx(lambda a, z, i: a + (z != 0), 0, int),
    "awkward_reduce_argmax_complex": cplx(lambda a, z, i: (z, i) if a is None or key(z) > key(a[0]) else a, None, lambda a: -1 if a is None else a[1]),
    "awkward_reduce_argmin_complex": cplx(lambda a, z, i: (z, i) if a is None or key(z) < key(a[0]) else a, None, lambda a: -1 if a is None else a[1]),
}

KERNELS = []


def parse(t):
    t = t.replace("Const[", "").replace("const ", "").replace("]", "")
    depth = t.count("List[")
    return depth, t.replace("List[", "").strip()


def setup(rec):
    spec = yaml.load(open(os.path.join(REPO, "kernel-specification.yml")), Loader=getattr(yaml, "CSafeLoader", yaml.SafeLoader))
    lib = ctypes.CDLL(os.path.join(os.path.dirname(ak.__file__), "libawkward-cpu-kernels.so"))
    for k in spec["kernels"]:
        name = k["name"]
        d = k.get("definition")
        if name in OVERRIDES:
            fn = OVERRIDES[name]
        elif d and "def " in d and "FIXME" not in d:
            ns = {"uint8": int, "float": lambda x: x, "range": lambda *a: range(*[int(x) for x in a]),
                  "kMaxInt64": kMaxInt64, "kSliceNone": kSliceNone, "int": lambda x: int(x) if not isinstance(x, float) or math.isfinite(x) else x}
            exec(compile(d, name, "exec"), ns)
            fn = ns[[x for x in ns if x.startswith("awkward")][0]]
        else:
            continue
        for s in k["specializations"]:
            try:
                c = getattr(lib, s["name"])
            except AttributeError:
                continue
            args = [(a["name"],) + (parse(a["type"]) if a["name"] != "scale" else (0, "double")) + (a["dir"], a.get("role") or "") for a in s["args"]]
            c.restype = Error
            c.argtypes = [CT[t] if dep == 0 else ctypes.c_void_p for _, dep, t, _, _ in args]
            KERNELS.append((name, s["name"], args, fn, c, d or ""))
    if len(KERNELS) < 500:
        raise SystemExit("only %d kernels with definitions" % len(KERNELS))
    rec.count("kernels with a definition", 0)


def clip(v, t):
    if t in ("float", "double"):
        return float(v)
    if t == "bool":
        return bool(v)
    i = np.iinfo(NP[t])
    if v < i.min or v > i.max:
        v = abs(v)
        v = v % (int(i.max) + 1)
    return int(v)


N = 64


def gen(rng, kname, args, checked):
    """Values for every in-argument, by name and role; inconsistent ones only for
    kernels whose definition looks out for them."""
    L = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 8, 11, 16, 17])
    outlen = rng.choice([1, 1, 2, 3, 4, 6])
    big = rng.random() < 0.2                   # values beyond 32 bits / near the type's limits
    valid = "raise" not in checked or rng.random() < 0.8
    content = rng.choice([64, 64, 64, 30, L, 10])
    maxcount = rng.choice([1, 2, 3, 3, 5])
    fixed = rng.choice([None, None, None, rng.randrange(4)])
    base0 = 0
    if rng.random() < 0.3:
        base0 = rng.randrange(1, 6)
    bigbase = rng.choice([2**31 - 40, 2**31 + 5, 2**32 - 60, 2**40, 2**24 + 1]) if big else 0
    counts = [fixed if fixed is not None else rng.randrange(maxcount + 1) for _ in range(N)]
    if rng.random() < 0.15:
        counts = [c if rng.random() < 0.6 else 0 for c in counts]
    same = rng.random() < 0.6
    out = {}
    starts = {}
    mono = rng.random() < 0.5
    for name, dep, t, d, role in args:
        r = role.split("-")[-1] if "-" in role else ""
        n = name.lower()
        if dep == 0:
            if t == "bool":
                out[name] = rng.random() < 0.5
            elif r == "identity" or n == "identity":
                out[name] = clip(rng.choice([0, 1, -3, 100, 2**62, -2**62]) if t[0] in "iu" else rng.choice([float("-inf"), float("inf"), 0.0, 2.5]), t)
            elif n in ("outlength", "startslength"):
                out[name] = outlen
            elif n == "step":
                out[name] = rng.choice([1, 1, 2, 3, -1, -1, -2, -3, 7])
            elif n in ("start", "stop"):
                out[name] = rng.choice([kSliceNone, 0, 1, 2, 3, -1, -2, -3, 100, -100])
            elif n in ("at", "regular_start"):
                out[name] = rng.choice([0, 0, 1, 2, -1, -2, 5])
            elif n in ("base", "scale") or n.endswith("offset"):
                out[name] = rng.randrange(4) if not (big and n == "base") else rng.choice([bigbase, 3])
                if n == "scale":
                    out[name] = rng.choice([1.0, 2.0, 1000.0, 3.0])
            elif "which" in n or n == "tag":
                out[name] = rng.randrange(3)
            elif n in ("n",):
                out[name] = rng.randrange(1, 5)
            elif n in ("size", "target", "skip", "stride", "width", "jaggedsize", "regularsize", "repetitions", "nextsize", "lenhead",
                       "fromwidth", "lenflathead", "lenarray", "numcontents", "maxcount", "tosize", "itemsize", "ndim"):
                out[name] = rng.choice([1, 1, 2, 3, 4, fixed or 1])
                if n == "ndim":
                    out[name] = rng.randrange(1, 4)
                if rng.random() < 0.1 and n not in ("stride", "ndim"):
                    out[name] = 0
                if n == "maxcount":
                    out[name] = max(counts)
                if n in ("skip", "stride") and rng.random() < 0.2:
                    out[name] = rng.choice([-1, -2, 8, 100]) if n == "skip" else rng.choice([2, 5, 8])
            elif n in ("lencontent", "contentlen", "tolength", "innerlength", "missinglength", "sliceinnerlen", "offsetslength",
                       "lenindex", "lenfromindex", "nonzerolength", "masklength") and "broadcast" not in kname:
                out[name] = content if n not in ("lenindex",) else L
                if n in ("offsetslength",) and rng.random() < 0.5:
                    out[name] = L + 1
            elif n == "offsetslength":
                out[name] = L + 1
            else:
                out[name] = L if rng.random() < 0.85 else rng.randrange(L + 1)
            out[name] = clip(out[name], t) if n != "scale" else out[name]
            continue
        hi = max(1, L)
        if dep == 2:
            rows = []
            for _ in range(4):
                o = [0]
                for _ in range(12):
                    o.append(o[-1] + rng.randrange(3))
                rows.append(o)
            out[name] = rows
            continue
        if n.endswith("offsets") or r in ("offsets", "rawoffsets"):
            cs = counts if same else [rng.randrange(maxcount + 1) for _ in range(N)]
            o = [base0 + bigbase]
            for c in cs[:-1]:
                o.append(o[-1] + c)
            if not valid and "monotonic" in checked and rng.random() < 0.4:
                rng.shuffle(o)
            v = o
        elif n.endswith("starts") or r == "starts":
            if mono:
                o = [base0 + bigbase]
                for c in counts[:-1]:
                    o.append(o[-1] + c)
            else:
                o = [rng.randrange(0, 20) + bigbase for _ in range(N)]
            if n in ("starts",) and any(a[0] == "parents" for a in args) or n == "nextstarts":
                o = sorted(rng.sample(range(N), N))[:N]
                o = [0] + [x for x in o if x][:N - 1]
            starts[n.replace("starts", "")] = o
            v = o
        elif n.endswith("stops") or r == "stops":
            s = starts.get(n.replace("stops", ""), [0] * N)
            cs = counts if same else [rng.randrange(maxcount + 1) for _ in range(N)]
            v = [a + c for a, c in zip(s, cs + [0] * N)]
            if not valid and ("] < starts[i]" in checked or "] > stop[i]" in checked) and rng.random() < 0.4:
                v = [x - rng.randrange(3) for x in v]
        elif "parents" in n:
            v = [rng.randrange(outlen) for _ in range(N)]
            if rng.random() < 0.75:
                v.sort()
        elif "mask" in n:
            p = rng.choice([0.0, 0.3, 0.5, 1.0])
            v = [1 if rng.random() < p else 0 for _ in range(N)]
            if t == "uint8_t":
                v = [rng.randrange(256) for _ in range(N)]
            elif t == "int8_t" and rng.random() < 0.2:
                v = [x * rng.choice([1, 2, 3, -1, 127]) for x in v]
        elif "tags" in n:
            v = [rng.randrange(3) for _ in range(N)]
            if not valid and rng.random() < 0.3:
                v[rng.randrange(N)] = rng.choice([-1, 5])
        elif n == "lencontents":
            v = [content] * N
        elif n == "shape":
            v = [rng.randrange(0, 4) if rng.random() < 0.2 else rng.randrange(1, 4) for _ in range(4)]
        elif n == "strides":
            v = [rng.randrange(0, 6) for _ in range(4)]
        elif n in ("nonzero",):
            v = sorted(rng.sample(range(200), N)) if rng.random() < 0.5 else list(range(N))
        elif "carry" in n or "advanced" in n or n in ("distincts", "gaps", "fromcounts", "shifts", "frompos"):
            v = [rng.randrange(hi if valid else 20) for _ in range(N)]
            if n == "distincts":
                v = [x if rng.random() < 0.6 else -1 for x in v]
            if rng.random() < 0.2:
                v = list(range(N))
        elif "index" in n or n in ("missing", "fromarray", "flatheadptr", "sliceindex") or r == "index":
            p = rng.choice([0, 0.3, 0.3, 1.0]) if t != "uint32_t" else 0
            m = rng.choice([hi, 5, 12, maxcount + 1])
            v = [-rng.choice([1, 1, 1, 2, 3]) if rng.random() < p else rng.randrange(m) for _ in range(N)]
            if rng.random() < 0.2:
                v = list(range(N))
                if rng.random() < 0.5:
                    v[rng.randrange(N)] += 1
            if big and rng.random() < 0.6:
                v = [x if x < 0 else x + bigbase for x in v]
        else:
            if t in ("float", "double"):
                v = [rng.choice([rng.randrange(-8, 9) / 4.0, rng.randrange(-8, 9), 0.0]) for _ in range(N)]
                if "reduce_m" in kname and rng.random() < 0.3:
                    v = [rng.choice([x, float("inf"), -float("inf")]) for x in v]
            elif t == "bool":
                v = [rng.random() < 0.5 for _ in range(N)]
            else:
                v = [rng.randrange(-4, 5) for _ in range(N)]
                if rng.random() < 0.3:
                    i = np.iinfo(NP[t])
                    v = [rng.choice([int(i.max), int(i.min), int(i.max) - 1, x, 0, 1]) for x in v]
        out[name] = [clip(x, t) for x in v]
    return out


def close(p, j, w, g):
    """Rounding of a complex product: relative to the modulus."""
    return abs(w - g) <= (1e-4 if p.t == "float" else 1e-12) * math.hypot(p.d[j & ~1], p.d[j | 1])


def run_case(rng, rec, i):
    kname, sname, args, fn, c, checked = KERNELS[i % len(KERNELS)]
    decided = 0
    for attempt in range(14):
        if one(rng, rec, kname, sname, args, fn, c, checked):
            decided += 1
            if decided >= 6:
                break
    if not decided:
        rec.count("no allowed input: " + sname)


def one(rng, rec, kname, sname, args, fn, c, checked):
    vals = gen(rng, kname, args, checked)
    pyargs = []
    for name, dep, t, d, role in args:
        if dep == 0:
            pyargs.append(vals[name])
        elif dep == 2:
            pyargs.append(InPtrs([In(r, t) for r in vals[name]]))
        elif d == "out":
            pyargs.append(Out(t, vals[name] if fn_updates(kname, name) else None))
        else:
            pyargs.append(In(vals[name], t))
    raised = False
    try:
        fn(*pyargs)
    except (Outside, OverflowError):
        return False
    except ValueError:
        raised = True
    scal = [vals[n] for n, dep, t, d, r in args if dep == 0 and t == "int64_t" and vals[n] < 1000]
    atleast = max([0] + scal) + 1
    cargs, keep, outs = [], [], []
    for (name, dep, t, d, role), p in zip(args, pyargs):
        if dep == 0:
            cargs.append(p)
        elif dep == 2:
            rows = [np.array(r.v, NP[t]) for r in p.v]
            ptrs = np.array([r.ctypes.data for r in rows], np.uintp)
            keep += rows + [ptrs]
            cargs.append(ptrs.ctypes.data)
        elif isinstance(p, In):
            # exactly as long as the definition needs (and as the lengths passed say)
            a = np.array(p.v[:max(p.hi, min(atleast, len(p.v)))], NP[t])
            keep.append((a, a.copy(), name))
            cargs.append(a.ctypes.data)
        else:
            n = max([x + 1 for x in p.d] or [1])
            if raised:
                n = max(n, 4000)           # how much was written before the failure is not specified
            fill = 0x5b
            a = np.frombuffer(bytearray([fill]) * (n * NP[t]().itemsize), NP[t]).copy() if t != "bool" else np.zeros(n, np.bool_)
            if p.init is not None:
                m = min(n, len(p.init))
                a[:m] = p.init[:m]
            before = a.copy()
            outs.append((name, t, a, before, p))
            cargs.append(a.ctypes.data)
    if rec.counts.get("calls", 0) % 1 == 0:
        rec.step("%s %s" % (sname, {n: (vals[n] if not isinstance(vals[n], list) else vals[n][:16]) for n in vals}))
    err = c(*cargs)
    failed = bool(err.str)
    desc = lambda: "%s(%s)" % (sname, ", ".join("%s=%r" % (n, (vals[n] if not isinstance(vals[n], list) else vals[n][:20])) for n in vals
                                                   if not isinstance(dict(zip([a[0] for a in args], pyargs))[n], Out) or fn_updates(kname, n)))
    if failed != raised:
        raise Violation("%s: %s" % (sname, "fails" if failed else "does not fail"),
                        "%s\nthe definition %s, the kernel %s" % (desc(), "raises" if raised else "returns", "reports failure" if failed else "succeeds"))
    for k in keep:
        if isinstance(k, tuple) and k[0].tobytes() != k[1].tobytes():
            raise Violation(sname + ": input modified", "%s changed its input %s" % (desc(), k[2]))
    if not raised:
        for name, t, a, before, p in outs:
            for j in range(len(a)):
                if j in p.written:
                    w, g = p.d[j], a[j].item()
                    if not (w == g or (kname == "awkward_reduce_prod_complex" and close(p, j, w, g)) or (isinstance(w, float) and (w != w and g != g))):
                        raise Violation(sname + ": " + name, "%s\n%s[%d] = %r, the definition gives %r" % (desc(), name, j, g, w))
                elif a[j:j + 1].tobytes() != before[j:j + 1].tobytes():
                    raise Violation(sname + ": extra write to " + name, "%s\nwrote %s[%d] = %r, which the definition does not" % (desc(), name, j, a[j].item()))
    rec.count("calls")
    rec.count("failing calls" if raised else "succeeding calls")
    if any(p.written for _, _, _, _, p in outs) or raised:
        rec.sig(sname, raised, tuple(min(len(p.written), 20) for _, _, _, _, p in outs),
                tuple(min(v, 9) for n, v in sorted(vals.items()) if isinstance(v, int))[:4])
    return True


UPDATES = {("awkward_NumpyArray_reduce_adjust_starts_64", "toptr"), ("awkward_NumpyArray_reduce_adjust_starts_shifts_64", "toptr"),
           ("awkward_UnionArray_nestedfill_tags_index", "tmpstarts"), ("awkward_regularize_arrayslice", "flatheadptr")}


def fn_updates(kname, name):
    return (kname, name) in UPDATES
