"""C12 JSON: reading gives the data the document denotes; writing gives a document that denotes the array."""
import json
import os
from vlib.common import *
from vlib import vgen

META = {
    "property": "C12",
    "technique": "runtime monitor: differential oracle (Python's json module) over generated documents and arrays, strings and files, every buffer size, with mutated documents, under ASan/UBSan",
    "cases": {"quick": 24000, "thorough": 1500000},
    "rule": "a case is either an array in a random layout written to JSON (string or file, compact or pretty, with or without NaN/infinity/complex encodings) and parsed by Python's json and by from_json, or a random JSON text (or several concatenated, or one damaged by a random edit) read by from_json from a string and from a file with a random buffer size; distinct = (form or document shape, options); non-trivial = the values were compared or the error was confirmed",
    "assumptions": ["integers become floating point when mixed with such numbers at the same place, or when they do not fit 64 signed bits", "fields missing from an object are missing values", "raw NUL characters, lone surrogates and numbers beyond the range of a double are out of scope"],
}
CFG = Cfg(prims=["bool"] + vgen.NUMS + ["complex64", "complex128"], empty=True, nan=True, virtual=0.05, partitioned=0.05, bytestrings=False,
          keys=["x", "", "a \"b\"\\", "\u20ac\U0001f600", "line\nfeed", "/", "1"], maxdepth=5)
NAN, INF, MINF = float("nan"), float("inf"), float("-inf")
ALPHA = ["a", "b", " ", "\"", "\\", "/", "\n", "\t", "\u00e9", "\u20ac", "\U0001f600", "\x7f", "\x01", "\u2028", "[", "]", "{", ",", "0", "null"]


EDGE = re.compile(r"[eE]-(3[0-9][0-9]|[4-9][0-9][0-9]|[0-9]{4})|(^|[^0-9.])0+(\.0*)?[eE]-")     # at the edge of what a double holds; zero with an exponent


class Dup(Exception):
    pass


def nodup(pairs):
    keys = [k for k, _ in pairs]
    if len(set(keys)) != len(keys):
        raise Dup()
    return dict(pairs)


DECODER = json.JSONDecoder(object_pairs_hook=nodup)


def pyparse(text):
    """The documents in the text, as Python's json reads them; raises ValueError if malformed."""
    out, i, n = [], 0, len(text)
    ws = " \t\n\r"
    while True:
        while i < n and text[i] in ws:
            i += 1
        if i == n:
            return out
        v, i = DECODER.raw_decode(text, i)
        out.append(v)


def big(v):
    """Outside of what the comparison covers: numbers that no double holds."""
    if type(v) is int:
        return abs(v) > 10 ** 300
    if type(v) is float:
        return v in (INF, MINF)
    if type(v) is list:
        return any(big(x) for x in v)
    if type(v) is dict:
        return any("\0" in k or big(x) for k, x in v.items())
    return False


def num(a, b):
    if type(b) is bool:
        return False
    if type(b) is int:
        return a == b and type(a) is int
    if type(b) is float:
        return float(a) == b or (a != a and b != b)
    return False


def agree(want, got):
    """Does the array's item say what the document's value says?"""
    t = type(want)
    if t is int or t is float:
        return num(want, got)
    if t is not type(got):
        return False
    if t is list:
        return len(want) == len(got) and all(agree(x, y) for x, y in zip(want, got))
    if t is dict:
        return all(k in got and agree(v, got[k]) for k, v in want.items()) and all(got[k] is None for k in got if k not in want)
    return want == got


# ------------------------------------------------------------ random documents

def esc(rng, s):
    out = []
    for ch in s:
        o = ord(ch)
        r = rng.random()
        if ch == "\"" or ch == "\\":
            out.append("\\" + ch)
        elif o < 32:
            out.append({"\n": "\\n", "\t": "\\t"}.get(ch) if ch in "\n\t" and r < 0.5 else "\\u%04x" % o)
        elif r < 0.15:
            if o > 0xffff:
                o -= 0x10000
                out.append("\\u%04X\\u%04x" % (0xd800 + (o >> 10), 0xdc00 + (o & 0x3ff)))
            else:
                out.append("\\u%04X" % o if r < 0.1 or ch != "/" else "\\/")
        else:
            out.append(ch)
    return "\"" + "".join(out) + "\""


def number(rng):
    r = rng.random()
    if r < 0.4:
        return str(rng.randint(-9, 9))
    if r < 0.5:
        return str(rng.choice([0, -1, 2 ** 31 - 1, 2 ** 31, -2 ** 31, -2 ** 31 - 1, 2 ** 32 - 1, 2 ** 32, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63, -2 ** 63 + 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 10 ** 25]))
    if r < 0.55:
        return str(rng.getrandbits(rng.randint(1, 63)) * rng.choice([1, -1]))
    if r < 0.75:
        return repr(rng.choice([0.5, -1.25, 0.1, 1e22, 1e-7, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, -0.0]))
    if r < 0.9:
        return repr(rng.uniform(-1, 1) * 10.0 ** rng.randint(-300, 300))
    return "%s%d%s%s%d" % (rng.choice(["", "-"]), rng.randint(1, 99), rng.choice(["", ".%d" % rng.getrandbits(rng.randint(1, 50))]), rng.choice(["e", "E", "e+", "E-", "e-"]), rng.randint(0, 250))


class Doc(object):
    """Random JSON text; places of the structure keep their own habits, so that records and lists repeat."""
    def __init__(self, rng, encs):
        self.rng, self.encs = rng, encs
        self.ws = rng.choice([[""], [""], ["", " "], ["", " ", "\n", "\t", "\r\n", "   "]])
        self.keys = rng.sample(["x", "y", "z", "", "a b", "\u20ac", "\"", "\\", "n\n", "x\u00e9"], rng.randint(1, 4))
        self.plans = {}
        self.budget = rng.choice([20, 60, 200, 600])

    def w(self):
        return self.rng.choice(self.ws)

    def plan(self, path):
        if path not in self.plans:
            rng = self.rng
            kinds = ["num", "num", "str", "bool", "null", "int"]
            if len(path) < 5:
                kinds += ["list"] * 4 + ["obj"] * 3
            ks = [rng.choice(kinds) for _ in range(rng.choice([1, 1, 1, 2, 2, 3]))]
            if not path and rng.random() < 0.8:
                ks = ["list"]
            self.plans[path] = (ks, rng.choice([[0], [1], [3], [0, 1, 2], [0, 1, 2, 5], [4, 7], [0, 12]]), rng.random())
        return self.plans[path]

    def text(self, path=()):
        rng, w = self.rng, self.w
        self.budget -= 1
        ks, lens, p = self.plan(path)
        k = rng.choice(ks)
        if k == "num":
            return number(rng)
        if k == "int":
            return str(rng.randint(-5, 99))
        if k == "bool":
            return rng.choice(["true", "false"])
        if k == "null":
            return "null"
        if k == "str":
            if self.encs and rng.random() < 0.4:
                return esc(rng, rng.choice(self.encs))
            return esc(rng, "".join(rng.choice(ALPHA) for _ in range(rng.choice([0, 1, 3, 8, 30]))))
        n = rng.choice(lens) if self.budget > 0 else 0
        if k == "list":
            return "[" + w() + (w() + "," + w()).join(self.text(path + ("[]",)) for _ in range(n)) + w() + "]"
        keys = list(self.keys) if p < 0.4 else [x for x in self.keys if rng.random() < 0.7]
        if rng.random() < 0.2:
            rng.shuffle(keys)
        if rng.random() < 0.004 and keys:
            keys.append(keys[0])
        return "{" + w() + (w() + "," + w()).join(esc(rng, x) + w() + ":" + w() + self.text(path + (x,)) for x in keys) + w() + "}"


def damage(rng, text):
    if not text:
        return text
    k = rng.randint(0, 4)
    i = rng.randrange(len(text))
    if k == 0:
        return text[:i]
    if k == 1:
        return text[:i] + text[i + 1:]
    if k == 2:
        return text[:i] + rng.choice(list("[]{},:\"\\ 0-.eE+tfnNI\x01") + ["\\u12", "\\x"]) + text[i:]
    if k == 3:
        return text[:i] + rng.choice(list("[]{},:\"\\ 0-.eE+tfnNI")) + text[i + 1:]
    j = rng.randrange(len(text))
    return text[:min(i, j)] + text[max(i, j):]


def encode_special(want, encs):
    """Strings that were declared to mean NaN and the infinities."""
    nan, inf, minf = encs
    if type(want) is str:
        if nan is not None and want == nan:
            return NAN
        if inf is not None and want == inf:
            return INF
        if minf is not None and want == minf:
            return MINF
        return want
    if type(want) is list:
        return [encode_special(x, encs) for x in want]
    if type(want) is dict:
        return {k: encode_special(x, encs) for k, x in want.items()}
    return want


def encodings(rng):
    if rng.random() < 0.5:
        return (None, None, None)
    return tuple(rng.choice([None, s, s]) for s in rng.choice([("nan", "inf", "-inf"), ("NaN", "Infinity", "-Infinity"), ("?", "\u221e", "-\u221e"), ("", "a", "b"), ("n\"n", "in", "i")]))


def read(rng, text, encs):
    """from_json on a string or a file; the file is removed again."""
    kw = dict(zip(("nan_string", "infinity_string", "minus_infinity_string"), encs))
    if rng.random() < 0.3:
        kw["initial"] = rng.choice([1, 2, 3, 1024])
        kw["resize"] = rng.choice([1.1, 1.5, 2.0, 10.0])
    if rng.random() < 0.5:
        return "string", kw, lambda: ak.from_json(text, **kw)
    path = os.path.join(os.environ["VERIF_TMP"], "c12-%d.json" % os.getpid())
    kw["buffersize"] = rng.choice([4, 5, 6, 7, 8, 16, 33, 64, 100, 1000, 65536])

    def fn():
        with open(path, "wb") as f:
            f.write(text.encode("utf-8"))
        try:
            return ak.from_json(path, **kw)
        finally:
            os.unlink(path)
    return "file", kw, fn


def shape(v, d=0):
    if d > 3:
        return "*"
    if type(v) is list:
        return "[" + ",".join(sorted(set(shape(x, d + 1) for x in v[:20]))) + "]"
    if type(v) is dict:
        return "{" + ",".join(sorted(set(k + shape(x, d + 1) for k, x in v.items()))) + "}"
    return type(v).__name__[0]


def reading(rng, rec):
    encs = encodings(rng)
    text = ""
    for _ in range(rng.choice([1] * 12 + [0, 2, 3])):
        text += Doc(rng, [e for e in encs if e is not None]).text() + rng.choice(["\n", " ", "\n\n", "\r\n"])
    if rng.random() < 0.5:
        text = text.strip(" \n\r")
    broken = rng.random() < 0.25
    if broken:
        for _ in range(rng.choice([1, 1, 2])):
            text = damage(rng, text)
    if len(text) < 200 and os.path.exists(text):
        raise Skip()
    how, kw, fn = read(rng, text, encs)
    key = "from_json"
    what = "from_json(%s, %r)" % (how, kw)
    try:
        docs = pyparse(text)
    except (ValueError, Dup) as e:
        if isinstance(e, Dup):
            rec.count("duplicate key")
        docs = None
    if docs is not None:
        if any(big(d) for d in docs) or (broken and EDGE.search(text)):
            raise Skip()
        try:
            json.dumps(docs, ensure_ascii=False).encode("utf-8")
        except UnicodeEncodeError:
            raise Skip()           # lone surrogates
    rec.step("%s %r" % (what, text[:3000]))
    got = attempt(fn)
    rec.count("read:" + how)
    if got[0] == "err":
        if not isinstance(got[1], ValueError):
            raise Violation(key + ": wrong kind of exception", "%s\n%r\n%r" % (what, text[:3000], got[1]))
        if docs is not None:
            raise Violation(key + ": a well-formed document was rejected", "%s\n%r\n%s" % (what, text[:3000], got[1]))
        rec.count("rejected-as-expected")
        rec.sig("rejected", how, str(got[1])[:18], len(text) % 16)
        return
    if docs is None:
        raise Violation(key + ": a malformed document was accepted", "%s\n%r\n%s" % (what, text[:3000], short(dec(got[1], key))))
    docs = encode_special(docs, encs)
    want = docs[0] if len(docs) == 1 else docs
    val = dec(got[1], key)
    if not agree(want, val):
        raise Violation(key + ": wrong data", "%s\n%r\nexpected %s\n     got %s" % (what, text[:2500], short(want), short(val)))
    if type(want) is list and isinstance(got[1], ak.Array) and rng.random() < 0.1:
        e = ak.validity_error(got[1])
        if e is not None:
            raise Violation(key + ": the array is invalid", "%s\n%r\n%s" % (what, text[:3000], e))
    rec.count("read-agreed")
    rec.sig("read", how, shape(want), len(docs), kw.get("buffersize"))
    rec.sample("from_json(%s) %s" % (how, short(text, 160)))


# ------------------------------------------------------------------- writing

def tojson(v, encs, cplx):
    """The JSON value that an item of an array is written as."""
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, bytes):
        return v.decode("utf-8")
    if isinstance(v, int):
        return int(v)
    if isinstance(v, float):
        nan, inf, minf = encs
        if v != v:
            return nan if nan is not None else v
        if v == INF:
            return inf if inf is not None else v
        if v == MINF:
            return minf if minf is not None else v
        return float(v)
    if isinstance(v, complex):
        if cplx is None:
            raise ModelError("complex without field names")
        return {cplx[0]: tojson(v.real, encs, None), cplx[1]: tojson(v.imag, encs, None)}
    if isinstance(v, list):
        return [tojson(x, encs, cplx) for x in v]
    if isinstance(v, tuple):
        return {str(i): tojson(x, encs, cplx) for i, x in enumerate(v)}
    if isinstance(v, dict):
        return {k: tojson(x, encs, cplx) for k, x in v.items()}
    raise Skip()


def jsame(a, b):
    if type(a) is not type(b):
        return False
    if type(a) is list:
        return len(a) == len(b) and all(jsame(x, y) for x, y in zip(a, b))
    if type(a) is dict:
        return list(a) == list(b) and all(jsame(x, b[k]) for k, x in a.items())
    return a == b or (a != a and b != b)


def nearly(a, b, tol):
    if type(a) is list:
        return type(b) is list and len(a) == len(b) and all(nearly(x, y, tol) for x, y in zip(a, b))
    if type(a) is dict:
        return type(b) is dict and list(a) == list(b) and all(nearly(x, b[k], tol) for k, x in a.items())
    if type(a) is float:
        return type(b) is float and (a == b or (a != a and b != b) or abs(a - b) <= tol + 1e-15 * abs(a))
    return jsame(a, b)


def writing(rng, rec):
    cfg = CFG if rng.random() < 0.3 else CFG.but(prims=["bool"] + vgen.NUMS)
    ty = vgen.rand_type(rng, cfg)
    vals = vgen.rand_values(rng, ty, cfg)
    lay = vgen.make_top(ty, vals, rng, cfg)
    encs = encodings(rng)
    cplx = rng.choice([("r", "i"), ("real", "imag"), None]) if vgen_has_complex(ty) else None
    item = None
    arr = ak.Array(lay)
    obj, plain = arr, [strip(ty, v) for v in vals]
    kw = dict(zip(("nan_string", "infinity_string", "minus_infinity_string"), encs))
    kw["complex_record_fields"] = cplx
    kw["pretty"] = rng.random() < 0.3
    maxdec = rng.choice([None] * 8 + [1, 3, 6, 20])
    kw["maxdecimals"] = maxdec
    if ty.kind == "rec" and vals and rng.random() < 0.3:
        item = rng.randrange(len(vals))
        obj, plain = arr[item], plain[item]
    elif rng.random() < 0.2:
        obj = obj.layout
    dest = None
    if rng.random() < 0.4:
        dest = os.path.join(os.environ["VERIF_TMP"], "c12w-%d.json" % os.getpid())
        kw["buffersize"] = rng.choice([4, 5, 8, 16, 33, 100, 65536])
    what = "to_json(%s, %r)%s" % ("file" if dest else "string", kw, "" if item is None else " of record %d" % item)
    try:
        want = ("ok", tojson(plain, encs, cplx))
    except ModelError:
        want = ("err", None)
    rec.step("%s %s" % (what, ty))

    def fn():
        if dest is None:
            return ak.to_json(obj, **kw)
        try:
            ak.to_json(obj, dest, **kw)
            with open(dest, "rb") as f:
                return f.read().decode("utf-8")
        finally:
            if os.path.exists(dest):
                os.unlink(dest)
    got = attempt(fn)
    rec.count("write:" + ("file" if dest else "string"))
    key = "to_json"

    def witness(s):
        return "%s\n%s\n%s" % (what, s, show_layout(lay))
    if want[0] == "err":
        # (when nothing complex is reached, there is nothing to refuse)
        if got[0] == "ok":
            raise Violation(key + ": complex numbers written without field names", witness(short(got[1])))
        rec.count("refused-as-expected")
        return
    if got[0] == "err":
        raise Violation(key + ": raised unexpectedly", witness("%s: %s" % (type(got[1]).__name__, got[1])))
    try:
        parsed = json.loads(got[1])
    except ValueError as e:
        raise Violation(key + ": not JSON", witness("%s\n%s" % (e, short(got[1], 1500))))
    ok = jsame(want[1], parsed) if maxdec is None else nearly(want[1], parsed, 10.0 ** -maxdec)
    if not ok:
        raise Violation(key + ": wrong document", witness("expected %s\n     got %s" % (short(want[1]), short(parsed))))
    rec.count("write-agreed")
    rec.sig("write", vgen.describe(lay) if item is None else "record", dest is None, kw["pretty"], maxdec is None, encs)
    # the round trip, through the library's own reader
    if want[1] == [] or big(want[1]) or (cplx is not None and rng.random() < 0.5):
        return
    encs2 = encs
    how, kw2, fn2 = read(rng, got[1], encs2)
    wanted = encode_special(parsed, encs2)
    rec.step("%s read back" % what)
    back = attempt(fn2)
    if back[0] == "err":
        raise Violation("round trip: not readable", witness("%s\n%s" % (short(got[1], 1500), back[1])))
    val = dec(back[1], "round trip")
    if not agree(wanted, val):
        raise Violation("round trip: wrong data", witness("text %s\nexpected %s\n     got %s" % (short(got[1], 1500), short(wanted), short(val))))
    rec.count("round trips")


def vgen_has_complex(ty):
    if ty.kind == "prim":
        return ty.dtype.startswith("complex")
    if ty.content is not None and vgen_has_complex(ty.content):
        return True
    return any(vgen_has_complex(c) for c in (ty.contents or []))


def complex_round_trip(rng, rec):
    """Arrays of complex numbers in nested lists, written and read with the same field names."""
    ty = Prim("complex128")
    for _ in range(rng.randint(0, 3)):
        ty = Lst(ty)
    cfg = CFG.but(virtual=0.0, partitioned=0.0)
    vals = vgen.rand_values(rng, ty, cfg)
    encs = ("nan", "inf", "-inf") if rng.random() < 0.5 else (None, None, None)
    cplx = rng.choice([("r", "i"), ("real", "imag"), ("i", "r")])
    kw = dict(zip(("nan_string", "infinity_string", "minus_infinity_string"), encs), complex_record_fields=cplx)
    lay = vgen.make_top(ty, vals, rng, cfg)
    plain = [strip(ty, v) for v in vals]

    def leaves(v):
        return [x for y in v for x in leaves(y)] if type(v) is list else [v]
    ls = leaves(plain)
    if not ls:
        raise Skip()
    rec.step("complex round trip %r" % (kw,))
    text = ak.to_json(lay, **kw)
    got = dec(ak.from_json(text, **kw), "complex round trip")

    def eq(a, b):
        if type(a) is list:
            return type(b) is list and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
        if type(b) is not complex:
            return False
        # real + 1j*imag turns an infinite imaginary part into a NaN real part
        f = lambda x, y: x == y or (x != x and y != y)
        return (f(a.real, b.real) or not np.isfinite(a.imag)) and f(a.imag, b.imag) or (not np.isfinite(a.real) or not np.isfinite(a.imag))
    if not eq(plain, got):
        raise Violation("complex round trip: wrong data", "%r\n%s\nexpected %s\n     got %s\n%s" % (kw, short(text), short(plain), short(got), show_layout(lay)))
    rec.count("complex round trips")
    rec.sig("complex", vgen.describe(lay), encs, cplx)


def run_case(rng, rec, i):
    r = rng.random()
    if r < 0.5:
        reading(rng, rec)
    elif r < 0.95:
        writing(rng, rec)
    else:
        complex_round_trip(rng, rec)
