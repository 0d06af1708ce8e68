"""C26 LayoutBuilder produces exactly the data filled into its declared form."""
import json
from vlib.common import *
from vlib import vgen

META = {
    "property": "C26",
    "technique": "runtime monitor: reference interpreter of fill commands; random forms and command histories with snapshots in between (kept and re-read at the end), any initial size, and injected contradicting commands; snapshots decoded from their buffers; under ASan/UBSan",
    "cases": {"quick": 16000, "thorough": 800000},
    "rule": "a case is one random form (numbers, strings, lists of every offset width, regular lists, records, tuples, one option or indexed node, top-level unions, categorical) and a history of fill commands with snapshots at random points, or the same history with one command that contradicts the form; distinct = (form, history shape); non-trivial = a snapshot was compared or a refusal confirmed",
    "assumptions": ["forms within the compositions named in C26-composition of known_findings.txt"],
}
CFG = Cfg(nan=True, extremes=0.15, huge=0.3)


class F(object):
    """A form: kind, JSON of it, and the type of its values."""
    __slots__ = ("kind", "js", "ty", "content", "contents")

    def __init__(self, kind, js, ty, content=None, contents=None):
        self.kind, self.js, self.ty, self.content, self.contents = kind, js, ty, content, contents


PRIMS = {"int64": "int64", "float64": "float64", "bool": "bool"}


class Keys(object):
    def __init__(self, rng):
        self.n, self.pre, self.give = 0, rng.choice(["node", "n", "key"]), rng.random() < 0.7

    def put(self, js):
        if self.give:
            js["form_key"] = "%s%d" % (self.pre, self.n)
            self.n += 1
        return js


def prim(rng, ks):
    d = rng.choice(list(PRIMS))
    return F("prim", ks.put({"class": "NumpyArray", "primitive": d}), Prim(d))


def string(rng, ks):
    k = rng.choice(["string", "string", "bytestring"])
    w = rng.choice(["32", "U32", "64"])
    inner = ks.put({"class": "NumpyArray", "primitive": "uint8", "parameters": {"__array__": "char" if k == "string" else "byte"}})
    js = ks.put({"class": "ListOffsetArray" + w, "offsets": {"32": "i32", "U32": "u32", "64": "i64"}[w], "content": inner, "parameters": {"__array__": k}})
    return F("str", js, vgen.STR if k == "string" else vgen.BYTES)


def lst(rng, ks, content):
    w = rng.choice(["32", "U32", "64"])
    o = {"32": "i32", "U32": "u32", "64": "i64"}[w]
    if rng.random() < 0.7:
        js = {"class": "ListOffsetArray" + w, "offsets": o, "content": content.js}
    else:
        js = {"class": "ListArray" + w, "starts": o, "stops": o, "content": content.js}
    return F("list", ks.put(js), Lst(content.ty), content)


def reg(rng, ks, content):
    n = rng.choice([1, 2, 3])
    return F("reg", ks.put({"class": "RegularArray", "size": n, "content": content.js}), Reg(content.ty, n), content)


def opt(rng, ks, content):
    w = rng.choice(["32", "64"])
    return F("opt", ks.put({"class": "IndexedOptionArray" + w, "index": {"32": "i32", "64": "i64"}[w], "content": content.js}), Opt(content.ty), content)


def idx(rng, ks, content):
    w = rng.choice(["32", "U32", "64"])
    return F("idx", ks.put({"class": "IndexedArray" + w, "index": {"32": "i32", "U32": "u32", "64": "i64"}[w], "content": content.js}), content.ty, content)


def rec_(rng, ks, contents):
    if rng.random() < 0.3:
        js = {"class": "RecordArray", "contents": [c.js for c in contents]}
        ty = Rec(None, [c.ty for c in contents])
    else:
        names = rng.sample(["x", "y", "z", "b", "a"], len(contents))
        js = {"class": "RecordArray", "contents": {n: c.js for n, c in zip(names, contents)}}
        ty = Rec(names, [c.ty for c in contents])
    return F("rec", ks.put(js), ty, contents=contents)


def uni(rng, ks, contents):
    w = rng.choice(["32", "U32", "64"])
    js = {"class": "UnionArray8_" + w, "tags": "i8", "index": {"32": "i32", "U32": "u32", "64": "i64"}[w], "contents": [c.js for c in contents]}
    return F("uni", ks.put(js), Uni([c.ty for c in contents]), contents=contents)


def masked(rng, ks, content):
    k = rng.choice(["unmasked", "byte", "bit"])
    js = {"class": "UnmaskedArray", "content": content.js} if k == "unmasked" else \
        {"class": "ByteMaskedArray", "mask": "i8", "content": content.js, "valid_when": True} if k == "byte" else \
        {"class": "BitMaskedArray", "mask": "u8", "content": content.js, "valid_when": True, "lsb_order": True}
    return F("masked", ks.put(js), content.ty, content)


def rand_form(rng, ks, depth=0, budget=None, inrec=False):
    if budget is None:
        budget = [1]            # at most one index-carrying node per form
    r = rng.random()
    if depth >= 3 or r < 0.3:
        return string(rng, ks) if rng.random() < 0.3 else prim(rng, ks)
    if r < 0.6:
        return lst(rng, ks, rand_form(rng, ks, depth + 1, budget))
    if r < 0.75:
        if inrec:
            return lst(rng, ks, prim(rng, ks))
        n = rng.choice([1, 2, 3])
        return rec_(rng, ks, [rand_form(rng, ks, depth + 1, budget, True) for _ in range(n)])
    if r < 0.85:
        if inrec:
            return string(rng, ks)
        return reg(rng, ks, prim(rng, ks))
    if budget[0] and r < 0.97:
        budget[0] -= 1
        return (idx if inrec else rng.choice([opt, idx]))(rng, ks, prim(rng, ks))
    if depth == 0:
        return masked(rng, ks, prim(rng, ks))
    return prim(rng, ks)


def top_form(rng, ks):
    if rng.random() < 0.12:
        cs = [prim(rng, ks) for _ in range(rng.choice([2, 2, 3]))]
        return uni(rng, ks, cs)
    return rand_form(rng, ks)


def rand_val(rng, ty):
    if ty.kind == "uni":
        t = rng.randrange(len(ty.contents))
        return U(t, rand_val(rng, ty.contents[t]))
    return rand_value(rng, ty, CFG)


def commands(f, v, out):
    """Fill commands of one value, each (command, argument)."""
    k = f.kind
    if k == "prim":
        out.append(({"int64": "int64", "float64": "float64", "bool": "boolean"}[f.ty.dtype], v))
    elif k == "str":
        out.append(("string" if f.ty.kind == "str" else "bytestring", v))
    elif k == "list":
        out.append(("begin_list",))
        for x in v:
            commands(f.content, x, out)
        out.append(("end_list",))
    elif k == "reg":
        for x in v:
            commands(f.content, x, out)
    elif k == "opt":
        if v is None:
            out.append(("null",))
        else:
            commands(f.content, v, out)
    elif k in ("idx", "masked"):
        commands(f.content, v, out)
    elif k == "rec":
        for c, x in zip(f.contents, v):
            commands(c, x, out)
    else:
        out.append(("tag", v.tag))
        commands(f.contents[v.tag], v.v, out)


def do(b, c):
    getattr(b, c[0])(*c[1:])


def run_case(rng, rec, i):
    ks = Keys(rng)
    f = top_form(rng, ks)
    text = json.dumps(f.js)
    form = ak.forms.Form.fromjson(text)
    n = rng.choice([0, 1, 2, 3, 5, 8, 20]) if rng.random() < 0.95 else 300
    vals = [rand_val(rng, f.ty) for _ in range(n)]
    plain = [strip(f.ty, v) for v in vals]
    initial, resize = rng.choice([1, 2, 3, 8, 16, 1024]), rng.choice([1.1, 1.5, 2.0, 8.0])
    rec.step(text)
    b = ak.layout.LayoutBuilder(form, initial=initial, resize=resize)
    cmds, ends = [], []
    for v in vals:
        commands(f, v, cmds)
        ends.append(len(cmds))
    rec.sig((text, tuple(c[0] for c in cmds[:60])))

    def wit(s):
        return "%s\ninitial=%d resize=%r\ncommands %s\n%s" % (text, initial, resize, short(cmds, 900), s)
    bad = None
    if cmds and rng.random() < 0.25:
        cand = [j for j, c in enumerate(cmds) if c[0] in ("int64", "float64", "boolean")]
        if cand:
            bad = rng.choice(cand)
            wrong = rng.choice([w for w in (("int64", 1), ("float64", 1.5), ("boolean", True), ("complex", 1 + 2j)) if w[0] != cmds[bad][0]])
    snaps = []
    for j, c in enumerate(cmds):
        if j == bad:
            rec.step("wrong %r" % (wrong,))
            try:
                do(b, wrong)
            except (ValueError, RuntimeError, IndexError, TypeError):
                rec.count("refused")
                return
            raise Violation("contradicting command accepted", wit("%r where %r belongs (command %d)" % (wrong, c, j)))
        try:
            do(b, c)
        except Exception as e:
            raise Violation("fill command refused", wit("command %d %r: %s: %s" % (j, c, type(e).__name__, str(e)[:300])))
        if j + 1 in ends and rng.random() < 0.2 or rng.random() < 0.01 and f.kind != "uni":
            m = sum(1 for e in ends if e <= j + 1)
            snaps.append((m, b.snapshot(), j + 1 in ends))
    snaps.append((n, b.snapshot(), True))
    for m, s, whole in snaps:
        got = dec(ak.Array(s) if not isinstance(s, ak.layout.Content) else s, "snapshot")
        if f.kind == "reg" and len(got) > m and not whole:
            pass
        if not same(plain[:m], got[:m]) or whole and len(got) != m or not whole and len(got) > m + 1:
            raise Violation("snapshot: wrong data", wit("after %d of %d items\nexpected %s\n     got %s\n%s" % (m, n, short(plain[:m]), short(got), show_layout(s))))
        rec.count("snapshots")
        if f.kind != "masked" and "uni" not in (f.kind,) and typeof(s) != str(form.type({})):
            raise Violation("snapshot: wrong type", wit("expected %s\n     got %s" % (form.type({}), typeof(s))))
    rec.count("agreed:" + f.kind)


def typeof(s):
    return str(s.type({}))
