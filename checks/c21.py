"""C21 Types, forms and lengths: what an array reports about itself is true, and descriptions survive printing."""
import json
import pickle
from vlib.common import *
from vlib import vgen, ops

META = {
    "property": "C21",
    "technique": "runtime monitor: reported types, forms, fields, depths and lengths compared with the generating type and the decoded data, on generated layouts and on results of random operations; round trips of types and forms through text; equality against structural comparison; under ASan/UBSan",
    "cases": {"quick": 16000, "thorough": 900000},
    "rule": "a case is one array in a random layout (with record names and parameters) whose reported type, form, fields, depth and length are compared with the type it was generated from, or a result of a random operation whose reported type must describe its decoded values, or a pair of types differing in one place; distinct = (form, what was checked); non-trivial = a comparison was made",
    "assumptions": ["partitioned arrays report the type of their first partition or refuse", "lazy arrays without a declared form report no fields until they are read"],
}
CFG = Cfg(prims=vgen.ALLPRIMS, empty=True, nan=True, virtual=0.08, partitioned=0.08, maxdepth=5, regstr=False, names=["Point", "Qq"], keys=["x", "y", "z", "a b", "q\u00e9"])
TYPESTRS = ak._util.typestrs(None)


def typename(ty, inner=False):
    """The datashape text of a type."""
    k = ty.kind
    if k == "prim":
        return ty.dtype.split("[")[0]
    if k == "str":
        return "string"
    if k == "bytes":
        return "bytes"
    if k == "unk":
        return "unknown"
    if k == "list":
        return "var * " + typename(ty.content)
    if k == "reg":
        return "%d * %s" % (ty.size, typename(ty.content))
    if k == "opt":
        c = ty.content
        if c.kind in ("list", "reg", "str", "bytes"):
            return "option[" + typename(c) + "]"
        return "?" + typename(c)
    if k == "uni":
        return "union[" + ", ".join(typename(c) for c in ty.contents) + "]"
    if k == "rec":
        if ty.fields is None:
            body = ", ".join(typename(c) for c in ty.contents)
            return "%s[%s]" % (ty.name, body) if ty.name else "(%s)" % body
        body = ", ".join("%s: %s" % (json.dumps(f, ensure_ascii=False), typename(c)) for f, c in zip(ty.fields, ty.contents))
        return "%s[%s]" % (ty.name, body) if ty.name else "{%s}" % body
    raise AssertionError(k)


def conforms(t, v):
    """Can a value of this type be v? (t is a library type object)"""
    n = type(t).__name__
    p = t.parameters.get("__array__")
    if n == "OptionType":
        return v is None or conforms(t.type, v)
    if n == "UnknownType":
        return False
    if n == "UnionType":
        return any(conforms(x, v) for x in t.types)
    if p == "string":
        return isinstance(v, str)
    if p == "bytestring":
        return isinstance(v, bytes)
    if n == "ListType":
        return isinstance(v, list) and all(conforms(t.type, x) for x in v)
    if n == "RegularType":
        return isinstance(v, list) and len(v) == t.size and all(conforms(t.type, x) for x in v)
    if n == "RecordType":
        if t.istuple:
            return isinstance(v, tuple) and len(v) == t.numfields and all(conforms(t.field(i), x) for i, x in enumerate(v))
        return isinstance(v, dict) and list(v) == list(t.keys()) and all(conforms(t.field(i), x) for i, x in enumerate(v.values()))
    if n == "PrimitiveType":
        d = t.dtype
        if d == "bool":
            return isinstance(v, bool)
        if d.startswith(("int", "uint")):
            return isinstance(v, int) and not isinstance(v, bool)
        if d.startswith("float"):
            return isinstance(v, float)
        if d.startswith("complex"):
            return isinstance(v, complex)
        if d.startswith("datetime"):
            return isinstance(v, np.datetime64)
        if d.startswith("timedelta"):
            return isinstance(v, np.timedelta64)
        return isinstance(v, (int, float, complex, bool))
    raise AssertionError(n)


def depth(ty):
    k = ty.kind
    if k in ("prim", "str", "bytes", "unk"):
        return 1
    if k in ("list", "reg"):
        d = depth(ty.content)
        return None if d is None else 1 + d
    if k == "opt":
        return depth(ty.content)
    return None


def fields(ty):
    while ty.kind in ("list", "reg", "opt"):
        ty = ty.content
    if ty.kind == "rec":
        return [str(i) for i in range(len(ty.contents))] if ty.fields is None else list(ty.fields)
    if ty.kind == "uni":
        return None
    return []


def node_type(lay):
    return lay.type(TYPESTRS)


def check_form(rng, rec, key, lay, witness):
    form = attempt(lambda: lay.form)
    if form[0] == "err":
        raise Violation(key + ": no form", witness(str(form[1])))
    form = form[1]
    t1, t2 = attempt(lambda: form.type(TYPESTRS)), attempt(lambda: lay.type(TYPESTRS))
    if t1[0] != t2[0]:
        raise Violation(key + ": form and array disagree on having a type", witness("%s / %s" % (t1[1], t2[1])))
    if t1[0] == "ok" and (t1[1] != t2[1] or str(t1[1]) != str(t2[1])):
        raise Violation(key + ": form and array disagree on the type", witness("%s / %s" % (t1[1], t2[1])))
    for verbose in (False, True):
        text = form.tojson(rng.random() < 0.5, verbose)
        back = ak.forms.Form.fromjson(text)
        if not (back == form) or back != form:
            raise Violation(key + ": form changed by printing", witness("%s\n%s" % (form, back)))
        if str(back.type(TYPESTRS)) != str(form.type(TYPESTRS)):
            raise Violation(key + ": form's type changed by printing", witness("%s\n%s" % (form.type(TYPESTRS), back.type(TYPESTRS))))
        if json.loads(back.tojson(False, True)) != json.loads(form.tojson(False, True)):
            raise Violation(key + ": form's text changed by printing", witness("%s\n%s" % (form, back)))
    back = pickle.loads(pickle.dumps(form))
    if back != form or str(back.type(TYPESTRS)) != str(form.type(TYPESTRS)):
        raise Violation(key + ": form changed by pickling", witness("%s\n%s" % (form, back)))
    rec.count("forms")
    return form


def printable(ty):
    """Types whose text the parser's grammar covers."""
    if ty.kind == "prim" and ty.dtype.startswith(("complex", "datetime", "timedelta", "float16")):
        return False
    if ty.kind == "rec":
        # the text of empty records and of named tuples is not in the grammar
        if not ty.contents or (ty.name and ty.fields is None):
            return False
        if ty.fields and any("\\" in f or "\"" in f for f in ty.fields):
            return False
    if ty.content is not None and not printable(ty.content):
        return False
    return all(printable(c) for c in (ty.contents or []))


def check_text(rec, key, t, ty, highlevel, witness):
    if not printable(ty):
        rec.count("outside the grammar")
        return
    text = str(t)
    back = attempt(lambda: ak.types.from_datashape(text, highlevel))
    if back[0] == "err":
        raise Violation(key + ": type text not understood", witness("%s\n%s" % (text, str(back[1])[:300])))
    if str(back[1]) != text:
        raise Violation(key + ": type text changed by parsing", witness("%s\n%s" % (text, back[1])))
    if back[1] != t or not (t == back[1]):
        raise Violation(key + ": parsed type differs", witness("%s\n%r %r" % (text, back[1], t)))
    rec.count("type texts")


def reports(rng, rec):
    ty = vgen.rand_type(rng, CFG)
    vals = vgen.rand_values(rng, ty, CFG)
    lay = vgen.make_top(ty, vals, rng, CFG)
    arr = ak.Array(lay)
    key = "reports"

    def witness(s):
        return "%s\n%s" % (s, show_layout(lay))
    rec.step("reports of %s %s" % (ty, vgen.describe(lay)))
    if len(arr) != len(vals):
        raise Violation(key + ": wrong length", witness("%d for %d" % (len(arr), len(vals))))
    part = isinstance(lay, ak.partition.PartitionedArray)
    desc = vgen.describe(lay)
    t = attempt(lambda: ak.type(arr))
    if t[0] == "err":
        if part:
            rec.count("refused: partitions differ")
            return
        raise Violation(key + ": no type", witness(str(t[1])))
    want = "%d * %s" % (len(vals), typename(ty))
    if str(t[1]) != want:
        raise Violation(key + ": wrong type", witness("expected %s\n     got %s" % (want, t[1])))
    if not part:
        lt = node_type(lay)
        if str(lt) != typename(ty):
            raise Violation(key + ": wrong layout type", witness("expected %s\n     got %s" % (typename(ty), lt)))
        check_form(rng, rec, key, lay, witness)
        check_text(rec, key, lt, ty, False, witness)
        f = attempt(lambda: ak.fields(arr))
        want = fields(ty)
        if want is not None and "V" not in desc:
            if f[0] == "err" or list(f[1]) != want:
                raise Violation(key + ": wrong fields", witness("expected %s\n     got %s" % (want, f[1])))
            if list(arr.fields) != want:
                raise Violation(key + ": wrong fields", witness("expected %s\n     got %s" % (want, arr.fields)))
        d = depth(ty)
        if d is not None:
            nd = attempt(lambda: arr.ndim)
            if nd[0] == "err" or nd[1] != d:
                raise Violation(key + ": wrong depth", witness("expected %s\n     got %s" % (d, nd[1])))
        mm = attempt(lambda: lay.minmax_depth)
        if mm[0] == "err" or tuple(mm[1]) != mmdepth(ty):
            raise Violation(key + ": wrong minimum and maximum depth", witness("expected %s\n     got %s" % (mmdepth(ty), mm[1])))
        # the same data in another layout have an equal type
        other = vgen.make(ty, vals, rng, CFG.but(partitioned=0.0))
        t2 = node_type(other)
        if t2 != lt or not (t2 == lt):
            raise Violation(key + ": equal types not equal", witness("%s\n%s\n%s" % (lt, t2, show_layout(other))))
    rec.sig("reports", desc)
    rec.sample("%s: %s" % (desc[:100], t[1]))


def mmdepth(ty):
    k = ty.kind
    if k in ("prim", "str", "bytes", "unk"):
        return (1, 1)
    if k in ("list", "reg"):
        a, b = mmdepth(ty.content)
        return (a + 1, b + 1)
    if k == "opt":
        return mmdepth(ty.content)
    if not ty.contents:
        return (1, 1)
    ds = [mmdepth(c) for c in ty.contents]
    return (min(d[0] for d in ds), max(d[1] for d in ds))


OPCFG = CFG.but(prims=["bool"] + vgen.NUMS, partitioned=0.0, keys=["x", "y", "z"])


def results(rng, rec):
    """The type reported for the result of an operation describes the result's values."""
    ty = vgen.rand_type(rng, OPCFG)
    vals = vgen.rand_values(rng, ty, OPCFG)
    op = ops.rand_op(rng, ty, vals, OPCFG)
    if op is None or op.name == "run_lengths" or (op.name in ("pad_none", "local_index", "num", "is_none", "run_lengths") and has_kind(ty, ("str", "bytes"))):
        raise Skip()            # (an axis inside of strings: see the known finding C25-axis-in-strings)
    if op.axis is not None and op.axis < 0 and has_kind(ty, ("rec", "uni")):
        raise Skip()            # (see the known finding C03-axis-records)
    lay = vgen.make_top(ty, vals, rng, OPCFG)
    rec.step("%s on %s" % (op.what, ty))
    got = attempt(lambda: op.fn(ak.Array(lay)))
    if got[0] == "err":
        rec.count("raised")
        return
    out = got[1]
    if not isinstance(out, (ak.Array, ak.Record)):
        rec.count("scalar")
        return
    key = "result of " + op.name
    olay = out.layout
    if isinstance(olay, ak.partition.PartitionedArray):
        return
    if isinstance(olay, ak.layout.NumpyArray) and olay.parameter("__array__") in ("char", "byte"):
        return

    def witness(s):
        return "%s\n%s\nresult:\n%s\ninput:\n%s" % (op.what, s, show_layout(olay, 3000), show_layout(lay, 2500))
    t = attempt(lambda: ak.type(out))
    if t[0] == "err":
        if "V" in vgen.describe(lay):
            rec.count("raised lazily")
            return
        raise Violation(key + ": no type", witness(str(t[1])))
    val = dec(out, key)
    t = t[1]
    if isinstance(out, ak.Array):
        if t.length != len(out) or len(val) != len(out):
            raise Violation(key + ": wrong length", witness("%s, len %d, %d items" % (t, len(out), len(val))))
        inner = t.type
        bad = [v for v in val if not conforms(inner, v)]
        if bad:
            raise Violation(key + ": type does not describe the values", witness("%s\n%s" % (t, short(bad[0]))))
        check_form(rng, rec, key, olay, witness)
        v = attempt(lambda: ak.fields(out))
        if v[0] == "err":
            raise Violation(key + ": fields raised", witness(str(v[1])))
    else:
        if not conforms(t, val):
            raise Violation(key + ": type does not describe the record", witness("%s\n%s" % (t, short(val))))
    rec.count("results")
    rec.sig("result", op.name, vgen.describe(olay) if isinstance(out, ak.Array) else "record")


# ----------------------------------------------------------------- equality

def mutate(rng, ty):
    """A type that differs in exactly one place, or None."""
    spots = []

    def walk(t, put):
        spots.append((t, put))
        if t.content is not None:
            walk(t.content, lambda x, t=t, put=put: put(clone(t, content=x)))
        for i, c in enumerate(t.contents or []):
            walk(c, lambda x, t=t, put=put, i=i: put(clone(t, contents=t.contents[:i] + [x] + t.contents[i + 1:])))
    walk(ty, lambda x: x)
    t, put = rng.choice(spots)
    k = t.kind
    if k == "prim":
        new = Prim(rng.choice([d for d in ["bool", "int8", "int32", "int64", "uint8", "uint64", "float32", "float64", "complex128"] if d != t.dtype]))
    elif k == "str":
        new = vgen.Ty("bytes")
    elif k == "bytes":
        new = vgen.Ty("str")
    elif k == "list":
        new = rng.choice([t.content, Reg(t.content, 2)])
        if new.kind in ("opt",):
            return None
    elif k == "reg":
        new = rng.choice([Lst(t.content), Reg(t.content, t.size + 1)])
    elif k == "opt":
        new = t.content
    elif k == "uni":
        new = clone(t, contents=t.contents[:-1]) if len(t.contents) > 2 else None
    elif k == "rec":
        if rng.random() < 0.3:
            j = rng.randint(0, len(t.contents))
            new = clone(t, contents=t.contents[:j] + [Prim("int8")] + t.contents[j:], fields=None if t.fields is None else t.fields[:j] + ["extra"] + t.fields[j:])
        elif len(t.contents) > 1 and rng.random() < 0.3:
            new = clone(t, contents=t.contents[::-1], fields=None if t.fields is None else list(t.fields)[::-1])
            if t.fields is not None or typename(new) == typename(t):
                new = clone(t, contents=t.contents[:-1], fields=None if t.fields is None else t.fields[:-1])
        elif t.contents and rng.random() < 0.5 and t.fields:
            new = clone(t, fields=["w"] + t.fields[1:]) if t.fields[0] != "w" else None
        elif rng.random() < 0.5:
            new = clone(t, name="Other" if t.name != "Other" else None)
        elif t.fields:
            new = clone(t, fields=None) if t.contents else None
        else:
            new = None
    else:
        return None
    if new is None:
        return None
    return put(new)


def clone(t, **kw):
    d = dict(kind=t.kind, dtype=t.dtype, content=t.content, size=t.size, fields=t.fields, contents=t.contents, name=t.name)
    d.update(kw)
    return vgen.Ty(d.pop("kind"), **d)


def equality(rng, rec):
    cfg = CFG.but(partitioned=0.0, virtual=0.0, unions=True)
    ty = vgen.rand_type(rng, cfg)
    other = mutate(rng, ty)
    if other is None or has_kind(ty, ("unk",)):
        raise Skip()
    rec.step("equality %s %s" % (ty, other))
    a = vgen.make(ty, [], rng, cfg) if rng.random() < 0.5 else vgen.make(ty, vgen.rand_values(rng, ty, cfg), rng, cfg)
    b = vgen.make(other, [], rng, cfg)
    ta, tb = node_type(a), node_type(b)
    if typename(ty) == typename(other):
        raise Skip()
    if ta == tb or not (ta != tb) or tb == ta or not (tb != ta):
        raise Violation("equality: different types equal", "%s\n%s" % (ta, tb))
    ka, kb = ak.types.ArrayType(ta, 3), ak.types.ArrayType(tb, 3)
    if ka == kb or ak.types.ArrayType(ta, 3) == ak.types.ArrayType(ta, 4) or not (ak.types.ArrayType(ta, 3) == ka):
        raise Violation("equality: array types", "%s\n%s" % (ta, tb))
    fa, fb = a.form, b.form
    if fa == fb or fb == fa or not (fa == fa) or fa != fa:
        raise Violation("equality: different forms equal", "%s\n%s" % (fa, fb))
    rec.count("unequal pairs")
    rec.sig("unequal", str(ta)[:120], str(tb)[:120])


def run_case(rng, rec, i):
    r = rng.random()
    if r < 0.45:
        reports(rng, rec)
    elif r < 0.75:
        results(rng, rec)
    else:
        equality(rng, rec)
