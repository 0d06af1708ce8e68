"""C11 ArrayBuilder: snapshots equal the data appended, whatever the order of commands and the growth policy."""
import gc
from vlib.common import *
from vlib import vgen

META = {
    "property": "C11",
    "technique": "runtime monitor: online model of the builder's command stream (open brackets, completed entries), compared with every snapshot when taken and again after further filling, clear and destruction of the builder, under ASan/UBSan",
    "cases": {"quick": 10000, "thorough": 700000},
    "rule": "a case is one builder (random initial size and growth factor) driven by a random command stream of nested lists, records, tuples, scalars of all types, nulls and appended array elements, with injected ill-formed commands, snapshots at any point, clear and from_iter; distinct = (form of a snapshot, kind of step); non-trivial = at least one snapshot was compared",
    "assumptions": ["integers may become floating point (or complex) when such numbers are appended to the same builder", "clear is only called when nothing is open"],
}
CFG = Cfg(empty=True, nan=True, virtual=0.0, partitioned=0.0, biglen=0.0)
SCALARS = ["null", "bool", "int", "real", "complex", "bytes", "str", "dt", "td"]
UNITS = ["s", "ms", "us", "ns", "D", "25s"]


class Rec(object):
    def __init__(self, name, items):
        self.name, self.items = name, items

    def __repr__(self):
        return "%s%r" % (self.name or "", dict(self.items))


class App(object):
    def __init__(self, lay, at, value):
        self.lay, self.at, self.value = lay, at, value

    def __repr__(self):
        return "append(%r)" % (self.value,)


class Plan(object):
    """What one place of the structure is filled with."""

    def __init__(self, rng, depth, pool):
        self.rng, self.depth, self.pool = rng, depth, pool
        kinds = SCALARS + ["list", "rec", "tup"] * (2 if depth < 3 else 0) + (["app"] if pool else [])
        r = rng.random()
        n = 1 if r < 0.45 else 2 if r < 0.8 else rng.randint(2, 5)
        self.kinds = [rng.choice(kinds) for _ in range(n)]
        if depth == 0 and not any(k in ("list", "rec", "tup") for k in self.kinds) and rng.random() < 0.7:
            self.kinds[0] = rng.choice(["list", "rec", "tup"])
        if rng.random() < 0.15:
            self.kinds.append("null")
        if rng.random() < 0.3:
            self.kinds += [self.kinds[0]] * 4
        self.unit = rng.choice(UNITS)
        self.sub = {}
        self.names = rng.choice([[None], [None], ["P"], [None, "P"], ["P", "Q", "R"]])
        self.sizes = rng.choice([[0], [1], [2], [3], [2, 3], [0, 1, 2]])
        self.fields = {}

    def at(self, key):
        if key not in self.sub:
            self.sub[key] = Plan(self.rng, self.depth + 1, self.pool)
        return self.sub[key]

    def value(self):
        rng = self.rng
        k = rng.choice(self.kinds)
        if k == "null":
            return None
        if k == "bool":
            return rng.random() < 0.5
        if k == "int":
            return rng.choice([0, 1, -1, 2, 3, 255, -128, 2**31, 2**53 + 1, -2**63, 2**63 - 1]) if rng.random() < 0.3 else rng.randint(-9, 99)
        if k == "real":
            return rng.choice([0.0, -0.0, 1.5, -2.25, 1e300, float("inf"), float("-inf"), float("nan"), 5e-324, 3.0])
        if k == "complex":
            return complex(rng.choice([0.0, 1.5, -2.0]), rng.choice([0.0, 1.0, -0.5]))
        if k == "bytes":
            return bytes(rng.choice([0, 10, 65, 200, 255]) for _ in range(rng.choice([0, 1, 2, 3, 3, 9, 40])))
        if k == "str":
            return "".join(rng.choice(["a", "b", "\0", "é", "😀", "\n", '"', " "]) for _ in range(rng.choice([0, 1, 2, 3, 3, 9, 40])))
        if k in ("dt", "td"):
            u = self.unit if rng.random() < 0.8 else rng.choice(UNITS)
            n = rng.choice([0, 1, -1, 17, 1000, -2**63])
            return (np.datetime64 if k == "dt" else np.timedelta64)(n, *((u,) if u != "25s" else ((25, "s"),))) if u != "25s" else \
                (np.datetime64 if k == "dt" else np.timedelta64)(n, ("s", 25))
        if k == "list":
            n = rng.choice([0, 0, 1, 2, 3, 4]) if rng.random() < 0.97 else rng.randint(5, 60)
            return [self.at("list").value() for _ in range(n)]
        if k == "tup":
            n = rng.choice(self.sizes)
            return tuple(self.at(("tup", n, j)).value() for j in range(n))
        if k == "rec":
            name = rng.choice(self.names)
            if name not in self.fields:
                self.fields[name] = rng.sample(["x", "y", "z", "w", "long field name", ""], rng.choice([0, 1, 2, 2, 3, 4]))
            fs = list(self.fields[name])
            if rng.random() < 0.25:
                rng.shuffle(fs)
            if fs and rng.random() < 0.2:
                fs.pop(rng.randrange(len(fs)))
            if rng.random() < 0.08 and len(self.fields[name]) < 5:
                new = rng.choice(["x", "y", "n1", "n2"])
                if new not in self.fields[name]:
                    self.fields[name].append(new)
                    fs.insert(rng.randrange(len(fs) + 1), new)
            return Rec(name, [(f, self.at(("rec", name, f)).value()) for f in fs])
        lay, vals = rng.choice(self.pool)
        if not vals:
            return None
        at = rng.randrange(len(vals))
        return App(lay, at, vals[at])


def agrees(w, g, flags):
    """Does the built value g denote the appended value w?"""
    if isinstance(w, App):
        return agrees_plain(w.value, g, flags)
    if isinstance(w, Rec):
        if not isinstance(g, dict):
            return False
        d = dict(w.items)
        return all(k in g and agrees(v, g[k], flags) for k, v in d.items()) and all(g[k] is None for k in g if k not in d)
    if isinstance(w, tuple):
        return isinstance(g, tuple) and len(w) == len(g) and all(agrees(a, b, flags) for a, b in zip(w, g))
    if isinstance(w, list):
        return isinstance(g, list) and len(w) == len(g) and all(agrees(a, b, flags) for a, b in zip(w, g))
    if isinstance(w, (bytes, str)) or w is None:
        return type(w) is type(g) and w == g
    return scalar(w, g, flags)


def agrees_plain(w, g, flags):
    if isinstance(w, dict):
        return isinstance(g, dict) and list(w) == list(g) and all(agrees_plain(w[k], g[k], flags) for k in w)
    if isinstance(w, (list, tuple)):
        return type(w) is type(g) and len(w) == len(g) and all(agrees_plain(a, b, flags) for a, b in zip(w, g))
    if isinstance(w, (bytes, str)) or w is None:
        return type(w) is type(g) and w == g
    return scalar(w, g, flags)


def scalar(w, g, flags):
    if isinstance(w, (np.datetime64, np.timedelta64)):
        return type(g) is type(w) and (bool(g == w) or bool(np.isnat(g) and np.isnat(w)))
    if isinstance(w, (bool, np.bool_)) or isinstance(g, (bool, np.bool_)):
        return isinstance(w, (bool, np.bool_)) and isinstance(g, (bool, np.bool_)) and bool(w) == bool(g)
    if isinstance(g, (bytes, str, list, dict, tuple)) or g is None or isinstance(g, (np.datetime64, np.timedelta64)):
        return False
    if isinstance(g, complex) and not isinstance(w, complex):
        if "complex" not in flags:
            return False
        return g.imag == 0 and same(float(w), g.real)
    if isinstance(g, float) and not isinstance(w, (float, complex)):
        return "real" in flags and float(w) == g
    if isinstance(w, float) and isinstance(g, float) and w == g == 0:
        return str(w) == str(g) or "app" in flags
    return same(w, g)


def run_case(rng, rec, i):
    initial = rng.choice([1, 1, 2, 3, 4, 7, 8, 64, 1024]) if rng.random() < 0.97 else rng.choice([0, 0, 1])
    resize = rng.choice([1.01, 1.1, 1.5, 1.5, 2.0, 10.0])
    pool = []
    if rng.random() < 0.3:
        for _ in range(rng.randint(1, 3)):
            ty = rand_type(rng, CFG)
            vals = rand_values(rng, ty, CFG, rng.randint(1, 5))
            lay = make(ty, vals, rng, CFG)
            pool.append((lay, [strip(ty, v) for v in vals]))
    high = rng.random() < 0.5
    b = ak.ArrayBuilder(initial=initial, resize=resize) if high else L.ArrayBuilder(initial=initial, resize=resize)
    Case(rng, rec, b, high, initial, resize, pool).go()


NAMES = {"begin_list": "beginlist", "end_list": "endlist", "begin_tuple": "begintuple", "end_tuple": "endtuple", "begin_record": "beginrecord", "end_record": "endrecord"}


class Case(object):
    def __init__(self, rng, rec, b, high, initial, resize, pool):
        self.rng, self.rec, self.b, self.high, self.pool = rng, rec, b, high, pool
        self.log = ["initial=%r resize=%r" % (initial, resize)]
        self.done, self.snaps, self.flags = [], [], set(["app", "real", "complex"] if pool else [])
        self.poisoned = False
        self.chatter = rng.choice([0.0, 0.02, 0.1])
        self.badness = rng.choice([0.0, 0.0, 0.01, 0.05])

    def call(self, name, *args):
        self.log.append("%s(%s)" % (name, ", ".join(short(a, 60) for a in args)))
        del self.log[1:-80]
        f = getattr(self.b, name if self.high else NAMES.get(name, name))
        try:
            return f(*args)
        except Exception as e:
            raise Violation("%s: raised" % name, "%s: %s\n%s" % (type(e).__name__, str(e)[:500], self.text()))

    def text(self):
        return "completed %s\ncommands ...%s" % (short(self.done, 1500), "; ".join(self.log[-60:]))

    def bad(self, ctx):
        """An ill-formed command: must raise and change nothing."""
        rng = self.rng
        kind, n, chosen = ctx
        cands = [("end_list",), ("end_record",), ("end_tuple",), ("field", "x"), ("index", 0)]
        if kind == "list":
            cands.remove(("end_list",))
        if kind == "rec":
            cands = [("end_list",), ("end_tuple",), ("index", 0)]
        if kind == "tup":
            cands = [("end_list",), ("end_record",), ("field", "x")] + ([("index", n), ("index", -1), ("index", n + 7)] if not chosen else [])
        if kind in ("rec", "tup") and not chosen:
            cands += [("integer", 1), ("null",), ("real", 1.5), ("boolean", True), ("string", "x"), ("bytestring", b"x"), ("complex", 1j), ("begin_list",), ("begin_tuple", 2), ("begin_record", None),
                      ("datetime", np.datetime64(1, "s")), ("timedelta", np.timedelta64(1, "s"))]
        c = rng.choice(cands)
        self.log.append("BAD %s%r" % (c[0], c[1:]))
        f = getattr(self.b, c[0] if self.high else NAMES.get(c[0], c[0]))
        self.rec.count("ill-formed")
        try:
            f(*c[1:])
        except Exception as e:
            if isinstance(e, (SystemError, MemoryError)):
                raise Violation("ill-formed %s: %s" % (c[0], type(e).__name__), self.text())
            return
        raise Violation("ill-formed %s in %s accepted" % (c[0], kind), self.text())

    def between(self, ctx):
        if self.chatter and self.rng.random() < self.chatter:
            self.snapshot("open" if ctx[0] != "top" else "top")
        if self.badness and self.rng.random() < self.badness:
            self.bad(ctx)

    def emit(self, v):
        t = type(v)
        if v is None:
            self.call("null")
        elif t is bool:
            self.call("boolean", v)
        elif t is int:
            self.call("integer", v)
        elif t is float:
            self.flags.add("real")
            self.call("real", v)
        elif t is complex:
            self.flags |= {"real", "complex"}
            self.call("complex", v)
        elif t is bytes:
            self.call("bytestring", v)
        elif t is str:
            self.call("string", v)
        elif t is np.datetime64:
            self.call("datetime", v)
        elif t is np.timedelta64:
            self.call("timedelta", v)
        elif t is App:
            if self.high:
                r = self.rng.random()
                arr = ak.Array(v.lay)
                if r < 0.3 and isinstance(v.lay, L.RecordArray):
                    self.call("append", arr[v.at])
                else:
                    self.call("append", arr, v.at if r < 0.7 else v.at - len(arr))
            else:
                self.call("append", v.lay, v.at)
        elif t is list:
            self.call("begin_list")
            for x in v:
                self.between(("list", 0, True))
                self.emit(x)
            self.between(("list", 0, True))
            self.call("end_list")
        elif t is tuple:
            self.call("begin_tuple", len(v))
            order = list(range(len(v)))
            if self.rng.random() < 0.2:
                self.rng.shuffle(order)
            chosen = False
            for j in order:
                self.between(("tup", len(v), chosen))
                self.call("index", j)
                chosen = True
                self.emit(v[j])
            self.between(("tup", len(v), chosen))
            self.call("end_tuple")
        else:
            self.call("begin_record", v.name)
            chosen = False
            for k, x in v.items:
                self.between(("rec", 0, chosen))
                self.call("field", k)
                chosen = True
                self.emit(x)
            self.between(("rec", 0, chosen))
            self.call("end_record")

    def snapshot(self, when):
        self.log.append("snapshot")
        self.rec.step("snapshot %s; %s" % (when, self.text()[:3000]))
        try:
            s = self.b.snapshot()
        except Exception as e:
            raise Violation("snapshot (%s): raised" % when, "%s: %s\n%s" % (type(e).__name__, str(e)[:500], self.text()))
        s = getattr(s, "layout", s)
        if len(self.b) != len(self.done):
            raise Violation("length (%s)" % when, "%d instead of %d\n%s" % (len(self.b), len(self.done), self.text()))
        err = s.validityerror()
        if err is not None:
            raise Violation("snapshot (%s): invalid" % when, "%s\n%s\n%s" % (err, self.text(), show_layout(s)))
        self.compare(s, list(self.done), set(self.flags), "snapshot (%s)" % when)
        self.rec.sig(str(s.form)[:600], when)
        self.snaps.append((s, list(self.done), set(self.flags)))
        if len(self.snaps) > 6:
            self.snaps.pop(self.rng.randrange(len(self.snaps)))

    def compare(self, s, want, flags, key):
        got = dec(s, key)
        if len(got) != len(want) or not all(agrees(w, g, flags) for w, g in zip(want, got)):
            j = next((k for k, (w, g) in enumerate(zip(want, got)) if not agrees(w, g, flags)), None)
            raise Violation(key + ": wrong data", "entry %r\nexpected %s\n     got %s\n%s\n%s" % (j, short(want if j is None else want[j]), short(got if j is None else got[j]), self.text(), show_layout(s, 2500)))
        for k in self.rng.sample(range(len(want)), min(2, len(want))):
            w = want[k]
            if isinstance(w, Rec):
                x = s[k]
                name = x.parameter("__record__") if isinstance(x, L.Record) else None
                if name != w.name:
                    raise Violation(key + ": wrong record name", "entry %d: %r instead of %r\n%s" % (k, name, w.name, self.text()))
        self.rec.count("compared")

    def go(self):
        rng = self.rng
        plan = Plan(rng, 0, self.pool)
        n = rng.choice([1, 2, 3, 5, 8, 12]) if rng.random() < 0.95 else rng.randint(20, 120)
        rounds = 1 if rng.random() < 0.85 else rng.randint(2, 3)
        for rnd in range(rounds):
            for _ in range(n):
                self.between(("top", 0, True))
                v = plan.value()
                r = rng.random()
                if r < 0.15 and plainable(v):
                    py = pyvalue(rng, v)
                    self.note(v)
                    if self.high:
                        self.call("append", py)
                    else:
                        self.call("fromiter", py)
                    self.done.append(v)
                elif r < 0.2 and self.pool and plan.kinds.count("app"):
                    lay, vals = rng.choice(self.pool)
                    self.call("extend", ak.Array(lay) if self.high else lay)
                    self.done += [App(lay, k, x) for k, x in enumerate(vals)]
                else:
                    self.emit(v)
                    self.done.append(v)
            self.snapshot("top")
            if rng.random() < 0.1:
                self.poison()
                self.poisoned = True
                break
            if rnd + 1 < rounds:
                self.log.append("clear")
                getattr(self.b, "_layout", self.b).clear()
                self.done = []
                if rng.random() < 0.6:
                    self.snapshot("cleared")
                if rng.random() < 0.3:
                    plan = Plan(rng, 0, self.pool)
        if rng.random() < 0.1 and not self.poisoned:
            t1, t2 = str(ak.type(self.b)) if self.high else str(self.b.type(ak._util.typestrs(None))), str(ak.type(self.snaps[-1][0]))
            if self.snaps[-1][1] == self.done and not t1.endswith(t2.split(" * ", 1)[-1]):
                raise Violation("type", "builder says %s, snapshot %s\n%s" % (t1, t2, self.text()))
        self.b = None
        gc.collect(0)
        for s, want, flags in self.snaps:
            self.compare(s, want, flags, "old snapshot")

    def note(self, v):
        if type(v) is float:
            self.flags.add("real")
        elif type(v) is complex:
            self.flags |= {"real", "complex"}
        elif isinstance(v, (list, tuple)):
            for x in v:
                self.note(x)
        elif isinstance(v, Rec):
            for _, x in v.items:
                self.note(x)

    def poison(self):
        """A field filled twice must be refused and leave completed data alone."""
        rec = self.rng.random() < 0.5
        before = list(self.done)
        if rec:
            self.call("begin_record", "Poison")
            self.call("field", "x")
        else:
            self.call("begin_tuple", 7)
            self.call("index", 3)
        self.call("integer", 1)
        self.call("integer", 2)
        f = getattr(self.b, ("end_record" if rec else "end_tuple") if self.high else ("endrecord" if rec else "endtuple"))
        try:
            f()
        except Exception:
            self.rec.count("refused-double-fill")
        else:
            raise Violation("field filled twice accepted", self.text())
        self.done = before
        self.snapshot("refused")


def plainable(v):
    if isinstance(v, App):
        return False
    if isinstance(v, Rec):
        return v.name is None and all(plainable(x) for _, x in v.items)
    if isinstance(v, (list, tuple)):
        return all(plainable(x) for x in v)
    return True


def pyvalue(rng, v):
    if isinstance(v, Rec):
        return {k: pyvalue(rng, x) for k, x in v.items}
    if isinstance(v, tuple):
        return tuple(pyvalue(rng, x) for x in v)
    if isinstance(v, list):
        xs = [pyvalue(rng, x) for x in v]
        r = rng.random()
        if r < 0.1:
            return iter(xs)
        if r < 0.3 and v and all(type(x) is type(v[0]) and type(x) in (int, float, bool) for x in v):
            return np.array(v)
        return xs
    if type(v) is int and rng.random() < 0.2:
        return np.int64(v)
    if type(v) is bool and rng.random() < 0.2:
        return np.bool_(v)
    if type(v) is float and rng.random() < 0.2:
        return np.float64(v)
    return v
