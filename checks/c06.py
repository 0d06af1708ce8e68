"""C06 broadcasting: every leaf of the result is the function of the leaves at its position."""
import operator
from vlib.ops import *
from vlib.model import *

META = {
    "property": "C06",
    "technique": "runtime monitor: element-by-element broadcasting oracle (independent recursive model of the broadcasting rules, NumPy applied to single elements) over random structures and layouts (ASan/UBSan build)",
    "cases": {"quick": 18000, "thorough": 600000},
    "rule": "a case is 1-4 arrays/scalars of related or unrelated structure in random layouts and 3 calls out of ufuncs, operators, broadcast_arrays, where, isclose, nan_to_num; distinct = (function, layout signatures); non-trivial = the model predicted a value or an exception",
    "assumptions": ["the top-level dimension counts as regular; when all inputs are regular, dimensions are matched from the right as in NumPy, otherwise from the left", "a missing value at any level makes the result missing there",
                    "regular dimensions of size 0 against size 1, and size mismatches in dimensions without data, are not documented",
                    "transcendental functions are compared to 1e-6 (float32) or 1e-12 because NumPy's vectorised loops round differently"],
}
CFG = Cfg(records=False, strings=False, unions=False, biglen=0.02, huge=0.1)
UN = ["negative", "absolute", "sqrt", "isfinite", "isnan", "sign", "logical_not", "floor", "square", "rint", "exp", "invert", "sin", "log1p", "signbit", "conjugate"]
BIN = ["add", "subtract", "multiply", "true_divide", "floor_divide", "remainder", "equal", "not_equal", "less", "less_equal", "greater", "greater_equal", "maximum", "minimum", "fmax",
       "logical_and", "logical_or", "logical_xor", "bitwise_and", "bitwise_or", "bitwise_xor", "arctan2", "hypot", "copysign", "left_shift", "float_power"]
TWO = ["modf", "frexp", "divmod"]
OPS2 = {"add": operator.add, "subtract": operator.sub, "multiply": operator.mul, "true_divide": operator.truediv, "floor_divide": operator.floordiv, "remainder": operator.mod,
        "equal": operator.eq, "not_equal": operator.ne, "less": operator.lt, "less_equal": operator.le, "greater": operator.gt, "greater_equal": operator.ge,
        "bitwise_and": operator.and_, "bitwise_or": operator.or_, "bitwise_xor": operator.xor}
INEXACT = ("exp", "sin", "log1p", "arctan2", "hypot", "float_power", "sqrt", "true_divide", "remainder", "floor_divide", "divmod")


def isreg(t):
    if t.kind in ("reg", "opt"):
        return isreg(t.content)
    return t.kind != "list"


def depth(t):
    if t.kind in ("reg", "list"):
        return 1 + depth(t.content)
    if t.kind == "opt":
        return depth(t.content)
    return 0


def leaf_kind(t):
    return t.kind not in ("list", "reg", "opt", "uni")


class Bro(object):
    """ts: types (None for a scalar), vs: values. leaf(ts, vs) is called at the bottom."""

    def __init__(self, leaf, stop=None):
        self.leaf, self.stop, self.leaves = leaf, stop, 0

    def __call__(self, ts, vs):
        return self.go([t and Reg(t, len(v)) for t, v in zip(ts, vs)], vs)

    def go(self, ts, vs):
        real = [t for t in ts if t is not None]
        if any(t.kind in ("list", "reg") for t in real) and all(isreg(t) for t in real):
            d = max(depth(t) for t in real)
            ts, vs = list(ts), list(vs)
            for i in range(len(ts)):
                while ts[i] is not None and depth(ts[i]) < d:
                    ts[i], vs[i] = Reg(ts[i], 1), [vs[i]]
        if self.stop and self.stop(ts):
            self.leaves += 1
            return self.leaf(ts, vs)
        if any(t is not None and t.kind == "uni" for t in ts):
            return self.go([t.contents[v.tag] if t is not None and t.kind == "uni" else t for t, v in zip(ts, vs)], [v.v if t is not None and t.kind == "uni" else v for t, v in zip(ts, vs)])
        if any(t is not None and t.kind == "opt" for t in ts):
            if any(t is not None and t.kind == "opt" and v is None for t, v in zip(ts, vs)):
                return None
            return self.go([t.content if t is not None and t.kind == "opt" else t for t in ts], vs)
        lists = [(t, v) for t, v in zip(ts, vs) if t is not None and t.kind in ("list", "reg")]
        if not lists:
            self.leaves += 1
            return self.leaf(ts, vs)
        var = [v for t, v in lists if t.kind == "list"]
        if not var:
            sizes = {t.size for t, v in lists}
            n = max(sizes)
            if n == 1 and 0 in sizes:
                raise Ambiguous()
            if any(s not in (1, n) for s in sizes):
                raise ModelError("regular sizes %r" % (sizes,))
        else:
            n = len(var[0])
            if any(len(v) != n for v in var) or any(t.kind == "reg" and t.size not in (1, n) for t, v in lists):
                raise ModelError("list lengths differ")
        out = []
        for j in range(n):
            nt, nv = [], []
            for t, v in zip(ts, vs):
                if t is not None and t.kind in ("list", "reg"):
                    nt.append(t.content)
                    nv.append(v[0] if t.kind == "reg" and t.size == 1 else v[j])
                else:
                    nt.append(t)
                    nv.append(v)
            out.append(self.go(nt, nv))
        return out


def conflict(ts):
    """Do the types alone disagree somewhere (even where there are no data)?"""
    ts = [t.content if t.kind == "opt" else t for t in ts]
    lists = [t for t in ts if t.kind in ("list", "reg")]
    if not lists:
        return False
    if all(isreg(t) for t in ts):
        d = max(depth(t) for t in ts)
        ts = [pad(t, d) for t in ts]
        lists = [t for t in ts if t.kind in ("list", "reg")]
    regs = {t.size for t in lists if t.kind == "reg"}
    if len(regs - {1}) > 1 or 0 in regs:
        return True
    return conflict([t.content if t.kind in ("list", "reg") else t for t in ts])


def pad(t, d):
    while depth(t) < d:
        t = Reg(t, 1)
    return unopt(t)


def np1(t, v):
    if t is None:
        return v
    if t.kind == "unk":
        return np.array([v], dtype=bool)
    return np.array([v], dtype=t.dtype)


def pyval(x):
    x = x[0]
    if isinstance(x, (np.datetime64, np.timedelta64)):
        return x
    return x.item() if isinstance(x, np.generic) else x


def leaf_dtypes(t):
    if t is None:
        return set()
    if t.kind == "prim":
        return {t.dtype}
    if t.kind == "uni":
        return set().union(*[leaf_dtypes(c) for c in t.contents])
    return leaf_dtypes(t.content) if t.content is not None else set()


# --- workload ------------------------------------------------------------------------------------
def other_type(rng, t):
    r = rng.random()
    if t.kind == "opt":
        c = other_type(rng, t.content)
        return c if r < 0.5 or c.kind == "opt" else Opt(c)
    if t.kind == "prim" or t.kind == "unk":
        p = rand_prim(rng, CFG)
        if r < 0.1 and p.kind == "prim":
            q = rng.choice(["bool", "float64", "int64"])
            if q != p.dtype:
                return Uni([p, Prim(q)])
        return Opt(p) if r > 0.85 else p
    if t.kind == "uni":
        return rand_prim(rng, CFG)
    if r < 0.15:
        return rand_prim(rng, CFG)
    c = other_type(rng, t.content)
    if t.kind == "reg":
        out = Reg(c, t.size) if r < 0.6 else Reg(c, 1) if r < 0.8 else Lst(c)
    else:
        out = Lst(c) if r < 0.85 else Reg(c, 1)
    return Opt(out) if rng.random() < 0.12 else out


def fill(rng, t, t2, v):
    if t2.kind == "opt":
        return None if rng.random() < 0.15 else fill(rng, t, t2.content, v)
    if t is not None and t.kind == "opt":
        t = t.content
    if t is None or v is None or t2.kind not in ("list", "reg") or t.kind not in ("list", "reg"):
        return rand_value(rng, t2, CFG)
    if t2.kind == "list":
        return [fill(rng, t.content, t2.content, x) for x in v]
    if t2.size == len(v) and t.kind == "reg":
        return [fill(rng, t.content, t2.content, x) for x in v]
    return [fill(rng, t.content, t2.content, v[0] if v else None) for _ in range(t2.size)]


def perturb(rng, t, v):
    """Changes the length of one list; returns success."""
    if v is None or t.kind not in ("list", "reg", "opt"):
        return False
    if t.kind == "opt":
        return perturb(rng, t.content, v)
    if t.kind == "list" and rng.random() < 0.5:
        if v and rng.random() < 0.5:
            v.pop()
        else:
            v.append(rand_value(rng, t.content, CFG))
        return True
    order = list(range(len(v)))
    rng.shuffle(order)
    return any(perturb(rng, t.content, v[j]) for j in order[:3])


def rand_scalar(rng):
    return rng.choice([0, 1, -1, 2, 3, 7, True, False, 1.5, -2.0, 0.0, 100, np.float32(1.5), np.int8(3), np.int64(-5), np.uint8(200), np.bool_(True), np.float64(2.25)])


def inputs(rng, k):
    n = rand_len(rng, CFG)
    t = rand_type(rng, CFG)
    if rng.random() < 0.004:        # long arrays of simple items: numberings wider than a byte
        n = rng.choice([300, 520, 700])
        p, q = rng.sample(["int64", "float64", "bool", "int8"], 2)
        t = rng.choice([Uni([Prim(p), Prim(q)]), Opt(Prim(p)), Prim(p), Lst(Prim(p)), Uni([Prim(p), Opt(Prim(q))])])
    while depth(t) > 3 or has_kind(t, ("bytes", "str", "rec")):
        t = rand_type(rng, CFG)
    v = rand_values(rng, t, CFG, n)
    ts, vs = [t], [v]
    while len(ts) < k:
        r = rng.random()
        if r < 0.12:
            ts.append(None)
            vs.append(rand_scalar(rng))
            continue
        if r < 0.2:
            t2 = rand_type(rng, CFG)
            while has_kind(t2, ("bytes", "str", "rec")):
                t2 = rand_type(rng, CFG)
            v2 = rand_values(rng, t2, CFG, n if rng.random() < 0.5 else None)
        else:
            t2 = other_type(rng, t)
            if r < 0.27:
                v2 = [fill(rng, t, t2, v[0] if v else None)]
            elif r < 0.35 and isreg(t) and unopt(t).kind == "reg" and n:
                tt = unopt(t)     # NumPy-like: a lower-dimensional regular array matched from the right
                t2 = other_type(rng, tt.content)
                base = next((x for x in v if x is not None), None)
                v2 = [fill(rng, tt.content, t2, x) for x in base] if base is not None else [rand_value(rng, t2, CFG) for _ in range(tt.size)]
            else:
                v2 = [fill(rng, t, t2, x) for x in v]
                if rng.random() < 0.12:
                    perturb(rng, Lst(t2), v2) if rng.random() < 0.3 else any(perturb(rng, t2, x) for x in v2)
        ts.append(t2)
        vs.append(v2)
    if k > 1 and rng.random() < 0.5:
        order = list(range(k))
        rng.shuffle(order)
        ts, vs = [ts[i] for i in order], [vs[i] for i in order]
    return ts, vs


def run_case(rng, rec, i):
    for _ in range(3):
        with np.errstate(all="ignore"):
            one(rng, rec)


def one(rng, rec):
    r = rng.random()
    fam = "unary" if r < 0.12 else "binary" if r < 0.6 else "two-output" if r < 0.66 else "broadcast_arrays" if r < 0.8 else "where" if r < 0.92 else "isclose" if r < 0.97 else "nan_to_num"
    k = {"unary": 1, "nan_to_num": 1, "where": 3, "isclose": 2}.get(fam) or (rng.randint(1, 4) if fam == "broadcast_arrays" else 2)
    name = None
    if fam == "two-output":
        name = rng.choice(TWO)
        k = 2 if name == "divmod" else 1
    ts, vs = inputs(rng, k)
    if fam == "where":
        if ts[0] is None:
            ts, vs = ts[::-1], vs[::-1]
        if ts[0] is None:
            return
        if rng.random() < 0.8:
            def boolify(t, v):
                if t.kind == "prim":
                    return Prim("bool"), None
                if t.kind == "uni":
                    return Prim("bool"), None
                c = boolify(t.content, None)[0] if t.content is not None else None
                return (t if c is None else Ty(t.kind, content=c, size=t.size)), None

            def bv(t, v):
                if v is None:
                    return None
                if t.kind in ("prim", "uni"):
                    return rng.random() < 0.5
                if t.kind == "unk":
                    return v
                return bv(t.content, v) if t.kind == "opt" else [bv(t.content, x) for x in v]
            vs = [[bv(ts[0], x) for x in vs[0]]] + vs[1:]
            ts = [boolify(ts[0], None)[0]] + ts[1:]
    cfg = CFG.but(virtual=0.1 if rng.random() < 0.2 else 0.0)
    args = [v if t is None else ak.Array(make_top(t, v, rng, cfg)) for t, v in zip(ts, vs)]
    lays = [a.layout for a in args if isinstance(a, ak.Array)]
    if not lays:
        return
    dts = set().union(*[leaf_dtypes(t) for t in ts])
    small = any(d in ("float32", "float16", "complex64") for d in dts) or any(isinstance(v, np.float32) for v in vs)
    unions = any(t is not None and has_kind(t, ("uni",)) for t in ts)
    real = [t for t in ts if t is not None]
    sig = tuple(describe(l) for l in lays)
    shown = [(t, short(v if t is None else [strip(t, x) for x in v], 300)) for t, v in zip(ts, vs)]
    outputs = 1
    loose = unions
    tol = 0
    stop = None
    kw = {}
    if fam in ("unary", "binary", "two-output"):
        if fam != "two-output":
            name = rng.choice(UN if fam == "unary" else BIN)
        uf = getattr(np, name)
        if name in INEXACT:
            tol = 1e-5 if small or dts & {"int8", "uint8", "bool", "int16", "uint16"} else 1e-11
        if fam == "two-output":
            outputs = 2

        def leaf(t, v, sel=0):
            try:
                out = uf(*[np1(a, b) for a, b in zip(t, v)])
            except (TypeError, ValueError) as e:
                raise ModelError(str(e))
            return pyval(out[sel] if outputs == 2 else out)
        how = "ufunc"
        if name in OPS2 and rng.random() < 0.4:
            how = "operator"
        if how == "operator":
            call = lambda: OPS2[name](*args)
        else:
            if rng.random() < 0.1 and len(args) == 2:
                # a NumPy array as the other operand
                j = rng.randrange(2)
                if ts[j] is not None and ts[j].kind == "prim":
                    args[j] = np.array(vs[j], dtype=ts[j].dtype)
                    if not any(isinstance(a, ak.Array) for a in args):
                        return
            call = lambda: uf(*args)
        key = name
    elif fam == "broadcast_arrays":
        outputs, key = k, fam
        if rng.random() < 0.15:
            kw = {"left_broadcast": True, "right_broadcast": True}

        def leaf(t, v, sel=0):
            return v[sel].item() if isinstance(v[sel], np.generic) else v[sel]
        call = lambda: ak.broadcast_arrays(*args, **kw)
        if None in ts:
            return      # scalars become arrays of length one
    elif fam == "where":
        key, loose = fam, True
        stop = lambda t: leaf_kind(t[0])

        def leaf(t, v, sel=0):
            j = 1 if v[0] else 2
            if t[j] is None:
                return v[j].item() if isinstance(v[j], np.generic) else v[j]
            return strip(t[j], v[j])
        call = lambda: ak.where(*args)
        if ts[0].kind == "unk" or has_kind(ts[0], ("uni",)):
            return
    elif fam == "isclose":
        key = fam
        kw = {"rtol": rng.choice([1e-5, 0.1]), "atol": rng.choice([1e-8, 0.5]), "equal_nan": rng.random() < 0.5}

        def leaf(t, v, sel=0):
            try:
                return bool(np.isclose(np1(t[0], v[0]), np1(t[1], v[1]), **kw)[0])
            except TypeError as e:
                raise ModelError(str(e))
        call = lambda: ak.isclose(*args, **kw)
        if None in ts or dts & {"datetime64[s]", "timedelta64[s]"}:
            return
    else:
        key = fam
        kw = {"nan": rng.choice([0.0, -5.0]), "posinf": rng.choice([None, 7.0]), "neginf": rng.choice([None, -7.0])}
        if None in ts:
            return

        def leaf(t, v, sel=0):
            return pyval(np.nan_to_num(np1(t[0], v[0]), **kw))
        call = lambda: ak.nan_to_num(args[0], **kw)
        stop = None
    count = [0]

    def model(sel=0):
        b = Bro(lambda t, v: leaf(t, v, sel), stop)
        out = b(ts, vs)
        count[0] = b.leaves
        return out
    clash = conflict([Reg(t, len(v)) for t, v in zip(ts, vs) if t is not None])
    rec.sig(key, sig)
    what = "%s(%r) %r" % (key, kw, shown)

    def cmp(want, got):
        return (close(want, got, tol) if tol else same(want, got, loose) or loose and close(want, got, 1e-15))

    def skip(e):
        if clash and ("cannot broadcast" in str(e) or "could not be broadcast" in str(e)):
            return True
        return count[0] == 0 and isinstance(e, (TypeError, ValueError)) and "broadcast" not in str(e)
    if outputs == 1 and fam != "broadcast_arrays":
        expect(rec, key, what, model, call, lays, cmp=cmp, skip_err=skip)
        return
    got = attempt(call)
    for s in range(outputs):
        def fn():
            if got[0] == "err":
                raise got[1]
            return got[1][s]
        expect(rec, "%s[%d]" % (key, s) if fam != "broadcast_arrays" else key, what + " output %d" % s, lambda: model(s), fn, lays, cmp=cmp, skip_err=skip)
