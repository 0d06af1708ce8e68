"""Random AwkwardForth programs as syntax trees, their source text, and a reference interpreter."""
import math
import struct
import numpy as np

READS = {"?": "?", "b": "b", "h": "h", "i": "i", "q": "q", "n": "q", "B": "B", "H": "H", "I": "I", "Q": "Q", "N": "Q",
         "f": "f", "d": "d"}
DTYPES = ["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"]
BINARY = ["+", "-", "*", "/", "mod", "/mod", "min", "max", "=", "<>", ">", ">=", "<", "<=", "and", "or", "xor"]
UNARY = ["negate", "1+", "1-", "abs", "0=", "invert"]
STACK = ["dup", "drop", "swap", "over", "rot", "nip", "tuck"]


class Stop(Exception):
    """The machine stops with this error."""


class Budget(Exception):
    """Too long, or the outcome is not defined by the language."""


class Exit(Exception):
    pass


# ------------------------------------------------------------------ programs

class Program(object):
    pass


def literal(rng):
    r = rng.random()
    if r < 0.6:
        return rng.randint(-3, 12)
    if r < 0.75:
        return rng.randint(-300, 300)
    return rng.choice([0, 1, -1, 2**31 - 1, -2**31, -2**31 + 1, 127, 128, 255, 256, 65535, 65536, rng.randint(-2**31, 2**31 - 1)])


class Gen(object):
    def __init__(self, rng):
        self.rng = rng
        self.words, self.bodies = [], {}
        self.variables = ["v%d" % i for i in range(rng.randint(0, 3))]
        self.inputs = ["in%d" % i for i in range(rng.randint(0, 2))]
        self.outputs = [("out%d" % i, rng.choice(DTYPES)) for i in range(rng.randint(0, 3))]
        self.strings = []
        self.current = None
        self.pauses = rng.random() < 0.5
        self.prints = rng.random() < 0.1

    def program(self):
        rng, p = self.rng, Program()
        for i in range(rng.choice([0, 0, 1, 1, 2, 3])):
            name = "w%d" % i
            self.current = name
            body = self.body(rng.randint(1, 8), 1, 0, guarded=True)
            self.words.append(name)
            self.bodies[name] = body
            self.current = None
        p.main = self.body(rng.randint(2, 18), 0, 0)
        p.words, p.bodies = list(self.words), self.bodies
        p.variables, p.inputs, p.outputs = self.variables, self.inputs, self.outputs
        p.strings = []
        p.source = render(p, rng)
        return p

    def body(self, n, depth, dodepth, guarded=False):
        out = []
        for _ in range(n):
            out.extend(self.node(depth, dodepth, guarded))
        return out

    def feed(self, k):
        return [("lit", literal(self.rng)) for _ in range(k)]

    def node(self, depth, dodepth, guarded):
        rng = self.rng
        r = rng.random()
        if r < 0.22:
            return [("lit", literal(rng))]
        if r < 0.36:
            op = rng.choice(BINARY)
            pre = self.feed(rng.choice([0, 1, 2])) if rng.random() < 0.7 else []
            return pre + [("op", op)]
        if r < 0.42:
            return (self.feed(1) if rng.random() < 0.4 else []) + [("op", rng.choice(UNARY))]
        if r < 0.44:
            # a shift by an amount within the width
            return [("lit", rng.choice([0, 1, 2, 5, 13, 30, 31])), ("op", rng.choice(["lshift", "rshift"]))]
        if r < 0.50:
            return (self.feed(rng.randint(1, 3)) if rng.random() < 0.5 else []) + [("op", rng.choice(STACK))]
        if r < 0.52:
            return [("op", rng.choice(["true", "false"]))]
        if r < 0.58 and depth < 4:
            pre = self.feed(1) if rng.random() < 0.6 else [("op", rng.choice(["true", "false", "dup"]))]
            a = self.body(rng.randint(0, 4), depth + 1, dodepth, guarded)
            b = self.body(rng.randint(0, 4), depth + 1, dodepth, guarded) if rng.random() < 0.5 else None
            return pre + [("if", a, b)]
        if r < 0.66 and depth < 4:
            start = rng.randint(-3, 4)
            step = rng.random() < 0.35
            pre = [("lit", start + rng.choice([-1, 0, 1, 2, 3, 5])), ("lit", start)]
            if rng.random() < 0.05:
                pre = []
            body = self.body(rng.randint(0, 4), depth + 1, dodepth + 1, guarded)
            if step:
                body += [("lit", rng.choice([1, 1, 2, 3, 5]))] if rng.random() < 0.97 else []
                if body and body[-1] == ("pause",):
                    body.append(("lit", 1))
            return pre + [("do", body, step)]
        if r < 0.70 and depth < 4:
            if self.variables and rng.random() < 0.7:
                # a counted loop
                v = rng.choice(self.variables)
                test = [("var", v, "@"), ("lit", rng.randint(0, 4)), ("op", rng.choice([">", ">=", "="]))]
                body = self.body(rng.randint(0, 3), depth + 1, dodepth, guarded) + [("lit", 1), ("var", v, "+!")]
                if rng.random() < 0.5:
                    return [("lit", 0), ("var", v, "!"), ("until", body + test)]
                return [("lit", 0), ("var", v, "!"), ("while", test + [("op", "invert")], body)]
            body = self.body(rng.randint(0, 3), depth + 1, dodepth, guarded)
            k = rng.random()
            if k < 0.5:
                return [("until", body + ([("op", "true")] if rng.random() < 0.6 else []))]
            if k < 0.8:
                return [("while", body + ([("op", "false")] if rng.random() < 0.6 else []),
                         self.body(rng.randint(0, 3), depth + 1, dodepth, guarded))]
            return [("again", body + [("op", "dup"), ("if", [("exit",)], None), ("op", "1+")])]
        if r < 0.73 and dodepth > 0:
            return [("op", ["i", "j", "k"][rng.randrange(min(dodepth, 3))])]
        if r < 0.77 and self.words:
            return [("call", rng.choice(self.words))]
        if r < 0.785 and self.current is not None:
            # a recursion which usually ends
            return [("op", "dup"), ("lit", 0), ("op", ">"), ("if", [("op", "1-"), ("recurse",)], None)]
        if r < 0.80:
            return [("if", [("exit",)], None)] if rng.random() < 0.6 else [("exit",)] if depth and rng.random() < 0.5 else [("op", "dup")]
        if r < 0.806:
            return [("lit", rng.randint(0, 1)), ("if", [("halt",)], None)]
        if r < 0.83 and self.pauses:
            return [("pause",)]
        if r < 0.86 and self.variables:
            return [("var", rng.choice(self.variables), rng.choice(["!", "+!", "@", "@"]))]
        if r < 0.865:
            return [("str", rng.choice(["a", "hey there", "x\ty", "", "a ( b", "c\\d"]), rng.random() < 0.7 or not self.prints)]
        if r < 0.87 and self.prints:
            return [("print", rng.choice([".", "cr", ".s"]))]
        if r < 0.93 and self.inputs:
            return self.reading()
        if r < 0.985 and self.outputs:
            return self.writing()
        return [("lit", literal(rng))]

    def reading(self):
        rng = self.rng
        name = rng.choice(self.inputs)
        r = rng.random()
        if r < 0.18:
            k = rng.choice(["len", "pos", "end", "seek", "skip"])
            return ([("lit", rng.choice([0, 1, 2, 3, 5, 8, -1, -2, -7, 40]))] if k in ("seek", "skip") and rng.random() < 0.9 else []) + [("in", name, k)]
        rep = rng.random() < 0.4
        pre = [("lit", rng.choice([0, 1, 2, 3, 4, 5, -1, 100]) if rng.random() < 0.8 else literal(rng))] if rep and rng.random() < 0.95 else []
        out = rng.choice(self.outputs)[0] if self.outputs and rng.random() < 0.6 else None
        k = rng.random()
        if k < 0.66:
            f = rng.choice(sorted(READS))
            big = f not in "?bB" and rng.random() < 0.4
            return pre + [("read", name, f, rep, big, out)]
        if k < 0.76:
            return pre + [("read", name, "varint", rep, False, out)]
        if k < 0.86:
            return pre + [("read", name, "zigzag", rep, False, out)]
        return pre + [("read", name, rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 23, 31, 32, 33, 47, 57, 58, 63, 64, rng.randint(1, 64)]),
                       rep, rng.random() < 0.3, out)]

    def writing(self):
        rng = self.rng
        name = rng.choice(self.outputs)[0]
        k = rng.choice(["<-", "<-", "<-", "+<-", "+<-", "dup", "len", "rewind"])
        pre = []
        if k in ("dup", "rewind"):
            pre = [("lit", rng.choice([0, 1, 1, 2, 3, 9, -1, -5]))] if rng.random() < 0.95 else []
            if k == "dup" and not pre:
                pre = [("lit", 2)]
        elif k != "len" and rng.random() < 0.7:
            pre = [("lit", literal(rng))]
        return pre + [("out", name, k)]


def render(p, rng):
    toks = []

    def sep():
        r = rng.random()
        return "\n" if r < 0.08 else "  " if r < 0.12 else "\t" if r < 0.13 else " "

    def emit(*words):
        # newlines are tokens of their own, so a phrase stays on one line
        toks.append(rng.choice([" ", " ", " ", "  ", "\t"]).join(words))
        toks.append(sep())

    def comment():
        r = rng.random()
        if r < 0.015:
            toks.append("( a comment ( nested ) )" + sep())
        elif r < 0.03:
            toks.append("\\ to the end of the line\n")

    def num(n):
        if n >= 0 and rng.random() < 0.1:
            return hex(n)
        return str(n)

    def body(nodes, defn):
        for x in nodes:
            comment()
            k = x[0]
            if k == "lit":
                emit(num(x[1]))
            elif k in ("op", "print"):
                emit(x[1])
            elif k == "if":
                emit("if")
                body(x[1], defn)
                if x[2] is not None:
                    emit("else")
                    body(x[2], defn)
                emit("then")
            elif k == "do":
                emit("do")
                body(x[1], defn)
                emit("+loop" if x[2] else "loop")
            elif k == "until":
                emit("begin")
                body(x[1], defn)
                emit("until")
            elif k == "again":
                emit("begin")
                body(x[1], defn)
                emit("again")
            elif k == "while":
                emit("begin")
                body(x[1], defn)
                emit("while")
                body(x[2], defn)
                emit("repeat")
            elif k == "call":
                emit(x[1])
            elif k == "recurse":
                emit("recurse" if rng.random() < 0.5 else defn)
            elif k in ("exit", "halt", "pause"):
                emit(k)
            elif k == "var":
                emit(x[1], x[2])
            elif k == "str":
                p.strings.append(x[1])
                toks.append(('s" ' if x[2] else '." ') + x[1] + '"' + sep())
            elif k == "in":
                emit(x[1], x[2])
            elif k == "read":
                _, name, f, rep, big, out = x
                w = ("#" if rep else "") + ("!" if big else "") + ("%dbit" % f if isinstance(f, int) else f) + "->"
                emit(name, w, out or "stack")
            elif k == "out":
                if x[2] in ("<-", "+<-"):
                    emit(x[1], x[2], "stack")
                else:
                    emit(x[1], x[2])

    decl = [("variable", v) for v in p.variables] + [("input", v) for v in p.inputs] + [("output",) + v for v in p.outputs]
    rng.shuffle(decl)
    # the indices of declarations follow the source
    p.variables = [d[1] for d in decl if d[0] == "variable"]
    for d in decl:
        emit(*d)
    p.index = {}
    for w in p.words:
        emit(":", w)
        number(p, p.bodies[w])
        body(p.bodies[w], w)
        emit(";")
    number(p, p.main)
    body(p.main, None)
    return "".join(toks)


def number(p, nodes):
    """String literals are numbered in the order of the source."""
    for x in nodes:
        if x[0] == "str":
            p.index[id(x)] = len(p.index)
        for y in x[1:]:
            if isinstance(y, list):
                number(p, y)


# ------------------------------------------------------------------ the reference machine

class Machine(object):
    def __init__(self, p, bits, stack_size, depth, rng, sizes, budget=3000):
        self.p, self.bits, self.max, self.depth = p, bits, stack_size, depth
        self.stack, self.var = [], dict.fromkeys(p.variables, 0)
        self.data = {n: bytearray(rng.getrandbits(8) for _ in range(sizes[n])) for n in p.inputs}
        self.touched = {n: bytearray(sizes[n]) for n in p.inputs}
        self.pos = dict.fromkeys(p.inputs, 0)
        self.out = {n: [] for n, _ in p.outputs}
        self.dt = dict(p.outputs)
        self.rng, self.budget = rng, budget
        self.dos = []
        self.used = set()

    def wrap(self, v):
        m = 1 << self.bits
        v &= m - 1
        return v - m if v >> (self.bits - 1) else v

    def push(self, v):
        if len(self.stack) >= self.max:
            raise Stop("stack overflow")
        self.stack.append(self.wrap(v))

    def need(self, k):
        if len(self.stack) < k:
            raise Stop("stack underflow")

    def pop(self):
        self.need(1)
        return self.stack.pop()

    def enter(self, depth):
        if depth >= self.depth:
            raise Stop("recursion depth exceeded")

    # every body runs at a depth; its parent is one less
    def run(self):
        try:
            for x in self.seg(self.p.main, 1, None):
                yield x
        except Exit:
            pass

    def word(self, name, depth):
        self.used.add("word")
        n = len(self.dos)
        try:
            for x in self.seg(self.p.bodies[name], depth, name):
                yield x
        except Exit:
            del self.dos[n:]

    def seg(self, nodes, d, defn):
        for x in nodes:
            self.budget -= 1
            if self.budget < 0:
                raise Budget("too long")
            k = x[0]
            self.used.add(k if k != "op" else x[1])
            if k == "lit":
                self.push(x[1])
            elif k == "op":
                self.op(x[1])
            elif k == "print":
                if x[1] == ".":
                    self.pop()
            elif k == "if":
                c = self.pop()
                b = x[1] if c != 0 else x[2]
                if b is not None:
                    self.enter(d)
                    for y in self.seg(b, d + 1, defn):
                        yield y
            elif k == "do":
                self.need(2)
                i = self.stack.pop()
                stop = self.stack.pop()
                if len(self.dos) == self.depth:
                    raise Stop("recursion depth exceeded")
                self.dos.append(i)
                while self.dos[-1] < stop:
                    self.budget -= 1
                    if self.budget < 0:
                        raise Budget("too long")
                    self.enter(d)
                    for y in self.seg(x[1], d + 1, defn):
                        yield y
                    self.dos[-1] += self.pop() if x[2] else 1
                    if abs(self.dos[-1]) > 2**62:
                        raise Budget("loop counter overflow")
                self.dos.pop()
            elif k in ("until", "again"):
                while True:
                    self.budget -= 1
                    if self.budget < 0:
                        raise Budget("too long")
                    self.enter(d)
                    for y in self.seg(x[1], d + 1, defn):
                        yield y
                    if k == "until" and self.pop() != 0:
                        break
            elif k == "while":
                while True:
                    self.budget -= 1
                    if self.budget < 0:
                        raise Budget("too long")
                    self.enter(d)
                    for y in self.seg(x[1], d + 1, defn):
                        yield y
                    if self.pop() == 0:
                        break
                    self.enter(d)
                    for y in self.seg(x[2], d + 1, defn):
                        yield y
            elif k in ("call", "recurse"):
                self.enter(d)
                for y in self.word(x[1] if k == "call" else defn, d + 1):
                    yield y
            elif k == "exit":
                raise Exit()
            elif k == "halt":
                raise Stop("user halt")
            elif k == "pause":
                yield d
            elif k == "var":
                if x[2] == "@":
                    self.push(self.var[x[1]])
                elif x[2] == "!":
                    self.var[x[1]] = self.pop()
                else:
                    self.var[x[1]] = self.wrap(self.pop() + self.var[x[1]])
            elif k == "str":
                if x[2]:
                    self.push(self.p.index[id(x)])
            elif k == "in":
                self.input(x[1], x[2])
            elif k == "read":
                self.read(*x[1:])
            elif k == "out":
                self.output(x[1], x[2])
            else:
                raise AssertionError(x)

    def op(self, w):
        s = self.stack
        if w in ("i", "j", "k"):
            self.push(self.dos[-1 - "ijk".index(w)])
        elif w == "true":
            self.push(-1)
        elif w == "false":
            self.push(0)
        elif w == "dup":
            self.need(1)
            self.push(s[-1])
        elif w == "drop":
            self.pop()
        elif w == "swap":
            self.need(2)
            s[-1], s[-2] = s[-2], s[-1]
        elif w == "over":
            self.need(2)
            self.push(s[-2])
        elif w == "rot":
            self.need(3)
            s[-3], s[-2], s[-1] = s[-2], s[-1], s[-3]
        elif w == "nip":
            self.need(2)
            del s[-2]
        elif w == "tuck":
            self.need(2)
            if len(s) >= self.max:
                raise Stop("stack overflow")
            s.insert(-2, s[-1])
        elif w in UNARY:
            self.need(1)
            v = s[-1]
            s[-1] = self.wrap({"negate": -v, "1+": v + 1, "1-": v - 1, "abs": abs(v), "0=": -1 if v == 0 else 0, "invert": ~v}[w])
        else:
            self.need(2)
            a, b = s[-2], s[-1]
            if w in ("/", "mod", "/mod"):
                if b == 0:
                    raise Stop("division by zero")
                if w == "/mod":
                    s[-2:] = [self.wrap(a % b), self.wrap(a // b)]
                else:
                    s[-2:] = [self.wrap(a // b if w == "/" else a % b)]
                return
            if w in ("lshift", "rshift"):
                if not 0 <= b < self.bits:
                    raise Budget("shift")
                s[-2:] = [self.wrap(a << b if w == "lshift" else a >> b)]
                return
            v = {"+": a + b, "-": a - b, "*": a * b, "min": min(a, b), "max": max(a, b), "=": -(a == b), "<>": -(a != b),
                 ">": -(a > b), ">=": -(a >= b), "<": -(a < b), "<=": -(a <= b), "and": a & b, "or": a | b, "xor": a ^ b}[w]
            s[-2:] = [self.wrap(v)]

    def input(self, name, k):
        n = len(self.data[name])
        if k == "len":
            self.push(n)
        elif k == "pos":
            self.push(self.pos[name])
        elif k == "end":
            self.push(-1 if self.pos[name] == n else 0)
        else:
            to = self.pop() + (self.pos[name] if k == "skip" else 0)
            if not 0 <= to <= n:
                raise Stop(k + " beyond")
            self.pos[name] = to

    def take(self, name, k, fmt=None, big=False):
        """The next k bytes; where nothing was read yet, the monitor chooses data that suits the format."""
        at = self.pos[name]
        if at + k > len(self.data[name]):
            raise Stop("read beyond")
        t = self.touched[name]
        if fmt is not None and k and self.rng.random() < 0.9:
            size = struct.calcsize("<" + fmt)
            for i in range(at, at + k, size):
                if not any(t[i:i + size]):
                    if fmt in "fd":
                        v = self.rng.choice([0.0, 1.0, 2.5, 100.0, 0.25, 3.0, self.rng.random() * 100, -1.5, float(self.rng.randint(0, 10**6))])
                    elif fmt == "?":
                        v = self.rng.random() < 0.5
                    elif self.rng.random() < 0.5:
                        v = self.rng.randint(0, 100)
                    else:
                        continue
                    self.data[name][i:i + size] = struct.pack((">" if big else "<") + fmt, v)
        for i in range(at, at + k):
            t[i] = 1
        self.pos[name] = at + k
        return bytes(self.data[name][at:at + k])

    def read(self, name, f, rep, big, out):
        n = 1
        if rep:
            n = self.pop()
            if n < 0:
                raise Stop("read beyond")
        self.used.add((f, rep, big, self.dt.get(out), self.bits))
        if f in ("varint", "zigzag"):
            for _ in range(n):
                shift = v = 0
                while True:
                    b = self.take(name, 1)[0]
                    if shift == 63:
                        raise Stop("varint too big")
                    v |= (b & 0x7f) << shift
                    shift += 7
                    if not b & 0x80:
                        break
                if f == "zigzag":
                    v = (v >> 1) ^ -(v & 1)
                self.deliver(v, out)
        elif isinstance(f, int):
            data = have = 0
            for _ in range(n):
                while have < f:
                    b = self.take(name, 1)[0]
                    if big:
                        b = int(format(b, "08b")[::-1], 2)
                    data |= b << have
                    have += 8
                v = data & ((1 << f) - 1)
                data >>= f
                have -= f
                self.deliver(v - (1 << 64) if v >> 63 else v, out)
        else:
            fmt = READS[f]
            raw = self.take(name, n * struct.calcsize("<" + fmt), fmt, big)
            if fmt == "?" and any(b > 1 for b in raw):
                raise Budget("not a boolean")
            for v in struct.unpack((">" if big else "<") + "%d%s" % (n, fmt) if n else "<", raw):
                self.deliver(v, out)

    def deliver(self, v, out):
        if out is None:
            if isinstance(v, float):
                if not math.isfinite(v) or abs(v) >= 2.0**(self.bits - 1):
                    raise Budget("float does not fit")
                v = int(v)
            self.push(int(v))
        else:
            self.out[out].append(self.convert(v, self.dt[out]))

    def convert(self, v, dt):
        if dt == "bool":
            return v != 0
        if dt.startswith("float"):
            with np.errstate(all="ignore"):
                if isinstance(v, bool):
                    v = int(v)
                if isinstance(v, int):
                    v = np.int64(v) if -2**63 <= v < 2**63 else np.uint64(v)
                return (np.float32 if dt == "float32" else np.float64)(v)
        bits = int(dt.strip("uint"))
        if isinstance(v, float):
            lo, hi = (0, 2**bits) if dt[0] == "u" else (-2**(bits - 1), 2**(bits - 1))
            if not math.isfinite(v) or not lo <= int(v) < hi or (bits < 32 and not -2**31 <= v < 2**31):
                raise Budget("float does not fit")
            v = int(v)
        v = int(v) & ((1 << bits) - 1)
        if dt[0] != "u" and v >> (bits - 1):
            v -= 1 << bits
        return v

    def output(self, name, k):
        o, dt = self.out[name], self.dt[name]
        if k == "<-":
            o.append(self.convert(self.pop(), dt))
        elif k == "+<-":
            v = self.convert(self.pop(), dt)
            if dt == "bool":
                o.append(bool((o[-1] if o else False) + v))
            elif dt.startswith("float"):
                with np.errstate(all="ignore"):
                    o.append((o[-1] if o else type(v)(0)) + v)
            else:
                o.append(self.convert((o[-1] if o else 0) + v, dt))
        elif k == "len":
            self.push(len(o))
        elif k == "dup":
            n = self.pop()
            if not o:
                raise Stop("rewind beyond")
            if n > 3000:
                raise Budget("too long")
            o.extend([o[-1]] * max(n, 0))
        else:
            n = self.pop()
            if n < 0 or n > len(o):
                raise Stop("rewind beyond")
            if n:
                del o[-n:]

    def state(self):
        outs = {}
        for n, dt in self.p.outputs:
            outs[n] = np.array(self.out[n], dtype=dt).tobytes() if not dt.startswith("f") else canon(np.array(self.out[n], dtype=dt))
        return {"stack": list(self.stack), "variables": dict(self.var), "positions": dict(self.pos), "outputs": outs}


def canon(a):
    """Bytes of a floating-point array with every NaN alike."""
    a = np.array(a)
    a[np.isnan(a)] = np.nan
    return a.tobytes()


def observe(m, p):
    outs = {}
    for n, dt in p.outputs:
        a = np.asarray(m.output_NumpyArray(n))
        if a.dtype != np.dtype(dt):
            outs[n] = "wrong dtype %s" % a.dtype
        else:
            outs[n] = canon(a) if dt.startswith("f") else a.tobytes()
    return {"stack": list(m.stack), "variables": dict(m.variables), "positions": {n: m.input_position(n) for n in p.inputs}, "outputs": outs}
