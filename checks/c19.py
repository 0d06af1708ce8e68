"""C19 The Forth virtual machine computes exactly what its language defines."""
import os
from vlib.common import *
from vlib import forth
import awkward.forth

META = {
    "property": "C19",
    "technique": "runtime monitor: an independent interpreter of the program's syntax tree predicts the machine's state at every pause, at the end and at every error; the compiled program is run straight through, resumed after pauses, single-stepped, called word by word and recompiled from its own decompilation, under ASan/UBSan",
    "cases": {"quick": 40000, "thorough": 4000000},
    "stall": 60,
    "rule": "a case is a random program (declarations, words, nested control flow, reads of every format and byte order, writes to outputs of every type) on random inputs, limits and buffer growth, executed in four ways on 32- or 64-bit machines; distinct = (words and reads executed, way of ending, mode); non-trivial = more than five instructions were executed",
    "assumptions": ["literals are 32-bit", "shift amounts lie within the word", "floating-point data fit the integer type they are converted to", "booleans in the input are 0 or 1"],
}
NORAISE = {"raise_" + k: False for k in ["user_halt", "recursion_depth_exceeded", "stack_underflow", "stack_overflow", "read_beyond", "seek_beyond", "skip_beyond", "rewind_beyond", "division_by_zero", "varint_too_big"]}


def setup(rec):
    fd = os.open("/dev/null", os.O_WRONLY)
    os.dup2(fd, 1)


def diff(a, b, err):
    for k in ["variables", "positions", "outputs", "stack"]:
        if k == "stack" and err == "division by zero":
            continue
        if a[k] != b[k]:
            return k
    return None


def run_case(rng, rec, i):
    p = forth.Gen(rng).program()
    bits = rng.choice([32, 64])
    stack = rng.choice([0, 1, 2, 3, 5, 8, 20, 1024]) if rng.random() < 0.4 else 1024
    depth = rng.choice([1, 2, 3, 4, 5, 8]) if rng.random() < 0.25 else 60
    init, grow = rng.choice([(1024, 1.5), (0, 1.5), (1, 1.5), (1, 1.0), (2, 1.1), (3, 2.0), (0, 0.5)])
    sizes = {n: rng.choice([0, 1, 3, 7, 16, 40, 200]) for n in p.inputs}
    seed = rng.random()
    import random
    calls = {}
    want, err = [], None
    quiet = [w for w in p.words if not has_pause(p, p.bodies[w], set())]
    model = forth.Machine(p, bits, stack, depth, random.Random(seed), sizes)
    try:
        try:
            for _ in model.run():
                want.append(model.state())
                if quiet and depth == 60 and rng.random() < 0.3:
                    w = rng.choice(quiet)
                    calls[len(want)] = w
                    saved, model.dos = model.dos, list(model.dos)
                    for _ in model.word(w, 2):
                        pass
                    model.dos = saved
                    want.append(model.state())
        except forth.Stop as e:
            err = str(e)
        if err == "recursion depth exceeded" and calls:
            raise Skip("depth of a called word depends on where the machine paused")
        want.append(model.state())
    except forth.Budget:
        raise Skip("not defined or too long")
    data = {n: bytes(b) for n, b in model.data.items()}
    cls = awkward.forth.ForthMachine32 if bits == 32 else awkward.forth.ForthMachine64

    def machine(source):
        return cls(source, stack_size=stack, recursion_depth=depth, output_initial_size=init, output_resize_factor=grow)

    def inputs():
        return {n: np.frombuffer(b, np.uint8).copy() for n, b in data.items()}

    about = "%d-bit, stack %d, depth %d, output %r\n%s\ninputs %s" % (bits, stack, depth, (init, grow), p.source, {n: d.hex() for n, d in data.items()})
    rec.step(about)
    m = machine(p.source)
    ins = inputs()

    def bad(mode, what, got, exp):
        raise Violation("%s: %s" % (mode, what), "%s: %s differs\n%s\ngot      %r\nexpected %r" % (mode, what, about, got, exp))

    # straight through, resuming after each pause (and calling words in between)
    got_err = m.run(ins, **NORAISE)
    at = 0
    while True:
        s = forth.observe(m, p)
        last = at == len(want) - 1
        d = diff(s, want[at], got_err)
        if d:
            bad("run", d, s[d], want[at][d])
        if got_err is not None or (m.is_done and not (at + 1 in calls)):
            break
        if last:
            # nothing but closing brackets may be left
            got_err = m.resume(**NORAISE)
            if got_err is None and m.is_done:
                d = diff(forth.observe(m, p), want[-1], None)
                if d:
                    bad("run", d, forth.observe(m, p)[d], want[-1][d])
                break
            bad("run", "does not end", got_err, err)
        if at + 1 in calls:
            got_err = m.call(calls[at + 1], **NORAISE)
        elif m.is_done:
            break
        else:
            got_err = m.resume(**NORAISE)
        at += 1
    rest = want[at + 1:]
    if got_err != err:
        bad("run", "error", got_err, err)
    if any(diff(w, want[at], err) for w in rest) or len(rest) > 1:
        bad("run", "ended early", want[at], want[-1])
    if any(bytes(ins[n]) != data[n] for n in data):
        raise Violation("input was modified", about)
    if not calls:
        # single steps
        m = machine(p.source)
        m.begin(inputs())
        n = 0
        e = None
        while not m.is_done:
            e = m.step(**NORAISE)
            n += 1
            if e is not None:
                break
            if n > 30000:
                bad("step", "does not end", n, err)
        if e != err:
            bad("step", "error", e, err)
        s = forth.observe(m, p)
        d = diff(s, want[-1], err)
        if d:
            bad("step", d, s[d], want[-1][d])
        # a mixture of steps and runs, on a machine that was used before
        m.begin(inputs())
        e = None
        while not m.is_done:
            if rng.random() < 0.6:
                e = m.step(**NORAISE)
            else:
                e = m.resume(**NORAISE)
            if e is not None:
                break
        s = forth.observe(m, p)
        d = diff(s, want[-1], err)
        if e != err or d:
            bad("step and resume", d or "error", s[d] if d else e, want[-1][d] if d else err)
        # the decompiled program
        text = m.decompiled
        try:
            m2 = machine(text)
        except Exception as ex:
            bad("decompiled", "does not compile: %s" % str(ex)[:200], text, "")
        e = m2.run(inputs(), **NORAISE)
        while e is None and not m2.is_done:
            e = m2.resume(**NORAISE)
        s = forth.observe(m2, p)
        d = diff(s, want[-1], err)
        if e != err or d:
            bad("decompiled", d or "error", s[d] if d else e, want[-1][d] if d else err)
        for k, text in enumerate(p.strings):
            if m.string_at(k) != text.lstrip():
                bad("string", "text", m.string_at(k), text)
    for u in sorted(map(str, model.used)):
        rec.sig(u, err, bits)
    if 3000 - model.budget > 5:
        rec.sig(tuple(sorted(map(str, model.used))), err, bool(calls))
    rec.count("instructions", 3000 - model.budget)
    rec.count("pauses", len(want) - 1)
    rec.count("ended: %s" % err)
    if err is None and len(want) > 2:
        rec.sample(p.source)


def has_pause(p, nodes, seen):
    for x in nodes:
        if x[0] == "pause":
            return True
        if x[0] == "call" and x[1] not in seen:
            seen.add(x[1])
            if has_pause(p, p.bodies[x[1]], seen):
                return True
        for y in x[1:]:
            if isinstance(y, list) and has_pause(p, y, seen):
                return True
    return False
