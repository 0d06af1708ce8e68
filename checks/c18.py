"""C18 Compiled (Numba) code sees and builds the same data as Python."""
import gc
import warnings
import weakref
from vlib.common import *
from vlib import vgen

META = {
    "property": "C18",
    "technique": "runtime monitor: for each random type and layout a generated function walks the array in compiled code (iterating, indexing from either end, slicing, reading fields and columns) and rebuilds it in a builder; the rebuilt, returned, sliced and picked data are compared with the generating values, out-of-range indexes must raise, and every buffer must be released afterwards and not before; library under ASan/UBSan",
    "cases": {"quick": 420, "thorough": 20000},
    "rule": "a case is one array in a random layout with one generated walking function, compiled for it and run on the array and on slices of it, plus compiled functions that return the array, a slice or an item, plus out-of-range indexes; distinct = (form, access pattern); non-trivial = rebuilt data were compared",
    "assumptions": ["strings and record field names in compiled builders are left out: they need llvmlite.llvmpy, which the installed llvmlite does not have", "unions are left out: compiled code cannot read them"],
    "stall": 200,
}
CFG = Cfg(prims=["bool", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "float32", "float64"], strings=0, bytestrings=0,
          nan=True, empty=False, unions=0, virtual=0.0, partitioned=0.08, maxdepth=4, zero_size_regular=False, extremes=0.1)

VIRTUAL = CFG.but(virtual=0.25, strided=0.0, numpynd=0.0)       # C18-virtual-strided


def setup(rec):
    warnings.simplefilter("ignore")
    ak.numba.register()


class Gen(object):
    def __init__(self, rng, partitioned):
        self.partitioned = partitioned
        self.rng, self.lines, self.n, self.modes = rng, [], 0, []

    def var(self):
        self.n += 1
        return "v%d" % self.n

    def put(self, ind, s):
        self.lines.append("    " * ind + s)

    def each(self, ind, ty, arr):
        """Statements that walk the list 'arr' of items of type 'ty'."""
        x, i = self.var(), self.var()
        mode = self.rng.choice(["iter", "index", "negative", "slice", "column"])
        if mode == "slice" and arr == "a" and self.partitioned:
            mode = "iter"       # C18-partitioned-slices
        if mode == "column" and ty.kind != "rec":
            mode = "index"
        self.modes.append(mode)
        if mode == "iter":
            self.put(ind, "for %s in %s:" % (x, arr))
        elif mode == "index":
            self.put(ind, "for %s in range(len(%s)):" % (i, arr))
            self.put(ind + 1, "%s = %s[%s]" % (x, arr, i))
        elif mode == "negative":
            self.put(ind, "for %s in range(-len(%s), 0):" % (i, arr))
            self.put(ind + 1, "%s = %s[%s]" % (x, arr, i))
        elif mode == "slice":
            h = self.var()
            self.put(ind, "%s = len(%s) // 2" % (h, arr))
            self.put(ind, "for %s in range(len(%s)):" % (i, arr))
            self.put(ind + 1, "%s = %s[:%s][%s] if %s < %s else %s[%s:][%s - %s]" % (x, arr, h, i, i, h, arr, h, i, h))
        else:
            self.put(ind, "for %s in range(len(%s)):" % (i, arr))
            self.record(ind + 1, ty, lambda k: "%s[%r][%s]" % (arr, k, i))
            return
        self.value(ind + 1, ty, x)

    def record(self, ind, ty, get):
        if not ty.contents:
            self.put(ind, "b.begin_tuple(0)")
            self.put(ind, "b.end_tuple()")
            return
        self.put(ind, "b.begin_tuple(%d)" % len(ty.contents))
        for j, c in enumerate(ty.contents):
            k = str(j) if ty.fields is None else ty.fields[j]
            y = self.var()
            self.put(ind, "b.index(%d)" % j)
            self.put(ind, "%s = %s" % (y, get(k)))
            self.value(ind, c, y)
        self.put(ind, "b.end_tuple()")

    def value(self, ind, ty, x):
        k = ty.kind
        if k == "prim":
            if ty.dtype == "bool":
                self.put(ind, "b.boolean(%s)" % x)
            elif ty.dtype.startswith("float"):
                self.put(ind, "b.%s(%s)" % (self.rng.choice(["real", "append"]), x))
            else:
                self.put(ind, "b.%s(%s)" % (self.rng.choice(["integer", "append"]), x))
        elif k == "opt":
            if ty.content.kind == "prim" and self.rng.random() < 0.5:
                self.put(ind, "b.append(%s)" % x)
                return
            self.put(ind, "if %s is None:" % x)
            self.put(ind + 1, "b.null()")
            self.put(ind, "else:")
            y = self.var()
            self.put(ind + 1, "%s = nonopt(%s)" % (y, x))
            self.value(ind + 1, ty.content, y)
        elif k == "rec":
            self.record(ind, ty, lambda f: "%s[%r]" % (x, f) if self.rng.random() < 0.7 or not f.isidentifier() or f.isdigit() else "%s.%s" % (x, f))
        else:
            self.put(ind, "b.begin_list()")
            self.each(ind, ty.content, x)
            self.put(ind, "b.end_list()")

    def text(self, ty):
        self.put(0, "def walk(a, b):")
        self.each(1, ty, "a")
        return "\n".join(self.lines) + "\n"


def as_tuples(ty, v):
    """What the walking function builds for a value."""
    k = ty.kind
    if v is None:
        return None
    if k == "opt":
        return as_tuples(ty.content, v)
    if k in ("list", "reg"):
        return [as_tuples(ty.content, x) for x in v]
    if k == "rec":
        return tuple(as_tuples(c, x) for c, x in zip(ty.contents, v))
    if k == "prim" and ty.dtype.startswith("float"):
        return float(np.dtype(ty.dtype).type(v))
    return v


def causes(ex):
    out = []
    while ex is not None and len(out) < 60:
        out.append(repr(ex)[:300])
        ex = ex.__cause__ or ex.__context__
    return " <- ".join(out[-2:])


def usable(ty, top=True):
    if ty.kind in ("str", "bytes", "unk", "uni"):
        return False
    if ty.kind in ("list", "reg", "opt"):
        return usable(ty.content, False)
    if ty.kind == "rec":
        return all(usable(c, False) for c in ty.contents)
    return True


def run_case(rng, rec, i):
    import numba as nb
    from numba.typed.typedobjectutils import _nonoptional
    cfg = VIRTUAL if rng.random() < 0.15 else CFG
    ty = rand_type(rng, cfg, 0)
    if not usable(ty):
        raise Skip()
    vals = rand_values(rng, ty, cfg, rng.choice([1, 2, 3, 5, 9]))
    vgen.REGISTRY = []
    try:
        lay = make_top(ty, vals, rng, cfg)
        refs = [weakref.ref(b) for b in vgen.REGISTRY]
    finally:
        vgen.REGISTRY = None
    plain = [strip(ty, v) for v in vals]
    arr = ak.Array(lay)
    try:
        arr.numba_type
    except ValueError:
        raise Skip()        # lazy arrays of undeclared form and partitions of different layouts are refused
    partitioned = isinstance(lay, ak.partition.PartitionedArray)
    g = Gen(rng, partitioned)
    src = g.text(ty)
    ns = {"nonopt": _nonoptional}
    exec(compile(src, "<walk>", "exec"), ns)
    walk = nb.njit(ns["walk"])
    rec.sig((describe(lay), tuple(g.modes)))
    what = "%s\n%s\n%s\n%s" % (ty, short(plain, 500), src, show_layout(lay))
    rec.step("walk " + what)
    n = len(vals)
    cuts = [(0, n)] + [tuple(sorted((rng.randint(0, n), rng.randint(0, n)))) for _ in range(2)]
    for s, e in cuts:
        x = arr if (s, e) == (0, n) else arr[s:e]
        if (s, e) != (0, n) and partitioned:
            continue
        if (s, e) != (0, n) and x.numba_type != arr.numba_type:
            continue        # would compile again
        b = ak.ArrayBuilder(initial=rng.choice([1, 2, 8, 1024]), resize=rng.choice([1.1, 1.5, 4.0]))
        try:
            walk(x, b)
        except Exception as ex:
            raise Violation("compiled walk failed: %s" % type(ex).__name__, "%s\n%s" % (str(ex)[:1200], what))
        got = dec(b.snapshot(), "builder")
        want = [as_tuples(ty, v) for v in vals[s:e]]
        if not same(want, got, loose=True):
            raise Violation("compiled walk: wrong data", "items %d:%d\nexpected %s\n     got %s\n%s" % (s, e, short(want, 600), short(got, 600), what))
        rec.count("walks")
    if partitioned:             # C18-partitioned-slices
        o1 = nb.njit(lambda a: a)(arr)
        if not same(plain, dec(o1, "array")):
            raise Violation("compiled code returned wrong data", "expected %s\n     got %s\n%s" % (short(plain, 600), short(dec(o1, "array"), 600), what))
        rec.count("partitioned")
        return
    # values handed back from compiled code
    s, e = sorted((rng.randint(-n - 2, n + 2), rng.randint(-n - 2, n + 2)))
    at = rng.randrange(-n, n)
    rec.step("return")

    def back(a, s, e, at):
        return a, a[s:e], a[at]
    back = nb.njit(back)
    try:
        o1, o2, o3 = back(arr, s, e, at)
    except Exception as ex:
        raise Violation("compiled return failed: %s" % type(ex).__name__, "[%d:%d], [%d]\n%s\n%s" % (s, e, at, str(ex)[:900] + " cause: " + causes(ex), what))
    for name, w, o in (("array", plain, o1), ("[%d:%d]" % (s, e), plain[s:e], o2), ("[%d]" % at, plain[at], o3)):
        got = dec(o, name)
        if not same(w, got, loose=not isinstance(o, (ak.Array, ak.Record))):
            raise Violation("compiled code returned wrong data", "%s\nexpected %s\n     got %s\n%s" % (name, short(w, 600), short(got, 600), what))
        rec.count("returns")
    for bad in (n, n + rng.randint(1, 9), -n - 1, -n - rng.randint(2, 9)):
        try:
            o = back(arr, 0, 0, bad)
        except (ValueError, IndexError):
            rec.count("out of range refused")
        else:
            raise Violation("out-of-range index accepted in compiled code", "[%d] gives %s\n%s" % (bad, short(dec(o[2], "item")), what))
    # lifetime: results outlive the array they came from
    del arr, lay, x, b
    gc.collect()
    for name, w, o in (("array", plain, o1), ("slice", plain[s:e], o2), ("item", plain[at], o3)):
        got = dec(o, name)
        if not same(w, got, loose=not isinstance(o, (ak.Array, ak.Record))):
            raise Violation("data from compiled code changed after its source was released", "%s\nexpected %s\n     got %s\n%s" % (name, short(w, 600), short(got, 600), what))
    del o, o1, o2, o3, got
    gc.collect()
    alive = [r for r in refs if r() is not None]
    if refs:
        rec.count("buffers followed", len(refs))
    if alive and "Virtual" not in what:
        raise Violation("buffers still held after compiled code returned", "%d of %d\n%s" % (len(alive), len(refs), what))
