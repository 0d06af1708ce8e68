"""C20 The Forth virtual machine is safe for any program, input and thread schedule."""
import os
import random
import re
import subprocess
import threading
from vlib.common import *
from vlib import forth
from checks.c19 import NORAISE
import awkward.forth

META = {
    "property": "C20",
    "technique": "runtime sanitizers: AddressSanitizer/UBSan build driven with token soup, mutated programs, hostile inputs, limits and API sequences; ThreadSanitizer build of the library driven by a multi-threaded harness sharing input buffers; concurrent Python threads (interpreter lock released) whose final states are compared with those of the same programs run alone",
    "cases": {"quick": 12000, "thorough": 900000},
    "extra_variants": ["tsan"],
    "stall": 120,
    "rule": "a case is one of: a random or mutated source on hostile inputs, driven through a random sequence of begin/step/run/resume/call/stack accesses; a batch of terminating programs run by several threads at once and compared with single-threaded runs; a batch of them under ThreadSanitizer; distinct = (kind, words of the source, errors seen); non-trivial = the source compiled, or threads met on it",
    "assumptions": ["a source that asks for billions of output items is out of scope (memory exhaustion)", "one machine is not shared between threads"],
}
TOKENS = ("+ - * / mod /mod negate 1+ 1- abs min max = <> > >= < <= 0= invert and or xor lshift rshift false true dup drop swap over rot nip tuck "
          "if else then do loop +loop begin again until while repeat exit recurse halt pause : ; ( ) \\ variable input output len pos end seek skip rewind stack <- +<- ! +! @ "
          "i j k . cr .s s\" .\" \" 0 1 2 3 -1 -2 5 100 2147483647 -2147483648 4294967296 99999999999999999999 0x 0xff 12abc 64bit-> 65bit-> 0bit-> "
          "v w x y in out f g \n w0 in0 out0 out1 v0 bool int8 int64 float32 uint16 nonsense #? -> #-> #!-> ! !!h-> #!3bit-> 3bit-> varint-> #zigzag->").split(" ")
TOKENS += [b + f + "->" for b in ("", "!", "#", "#!") for f in "?bhiqnBHIQNfd"]
HARNESS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), ".build", "tsan", "lib", "forth_threads")


def setup(rec):
    fd = os.open("/dev/null", os.O_WRONLY)
    os.dup2(fd, 1)


def run_case(rng, rec, i):
    if i % 600 == 7:
        return tsan(rng, rec)
    if i % 40 == 3:
        return threads(rng, rec)
    return hostile(rng, rec)


def soup(rng):
    r = rng.random()
    if r < 0.25:
        toks = ["variable", "v0", "\n", "input", "in0", "\n", "output", "out0", rng.choice(forth.DTYPES), "\n"]
        toks += [rng.choice(TOKENS) for _ in range(rng.randint(0, 25))]
    else:
        p = forth.Gen(rng).program()
        toks = re.split(r"([ \t\n]+)", p.source)
        toks = [t for t in toks if t]
        for _ in range(rng.choice([0, 1, 1, 2, 4, 8])):
            if not toks:
                break
            k = rng.randrange(len(toks))
            m = rng.random()
            if m < 0.35:
                toks[k] = rng.choice(TOKENS)
            elif m < 0.5:
                del toks[k]
            elif m < 0.65:
                toks.insert(k, " " + rng.choice(TOKENS) + " ")
            elif m < 0.8:
                j = rng.randrange(len(toks))
                toks[k], toks[j] = toks[j], toks[k]
            elif m < 0.9:
                toks[k] = str(forth.literal(rng))
            else:
                j = min(len(toks), k + rng.randint(1, 6))
                toks[k:k] = toks[k:j]
        return "".join(toks)
    s = " ".join(toks)
    if rng.random() < 0.1:
        s = s[:rng.randint(0, len(s))]
    if rng.random() < 0.05:
        k = rng.randint(0, len(s))
        s = s[:k] + chr(rng.choice([0, 1, 34, 92, 127, 255, 0x1F600])) + s[k:]
    return s


def buffers(rng, names):
    out = {}
    for n in names:
        size = rng.choice([0, 1, 3, 8, 24, 100])
        a = np.frombuffer(bytes(rng.getrandbits(8) for _ in range(size)), np.uint8).copy()
        r = rng.random()
        if r < 0.1:
            a = a[::-1]
        elif r < 0.2:
            a = a[::2]
        elif r < 0.3 and size % 8 == 0:
            a = a.view(rng.choice(["<i8", "<f8", "<i4", "<u2"]))
        elif r < 0.35 and size % 4 == 0:
            a = a.reshape(-1, 4)
            if rng.random() < 0.5:
                a = a.T
        elif r < 0.4:
            a = bytes(a)
        elif r < 0.45:
            a = bytearray(a)
        elif r < 0.48:
            a = memoryview(a)
        elif r < 0.5:
            a = rng.choice([None, 3, "text", np.array(1.5), np.array(None)])
        if rng.random() < 0.98:
            out[n] = a
    if rng.random() < 0.03:
        out["other"] = np.zeros(3)
    return out


def dangerous(source):
    """Asking for billions of output items only exhausts the memory."""
    t = source.split()
    for k in range(1, len(t)):
        if t[k] == "dup" and t[k - 1].startswith("out") or t[k - 1] in ("x", "y") and t[k] == "dup":
            if k < 2 or not re.match(r"^-?\d{1,3}$", t[k - 2]):
                return True
    return False


def hostile(rng, rec):
    source = soup(rng)
    if dangerous(source):
        raise Skip("memory")
    cls = rng.choice([awkward.forth.ForthMachine32, awkward.forth.ForthMachine64])
    args = dict(stack_size=rng.choice([0, 1, 2, 7, 1024]) if rng.random() < 0.6 else 1024,
                recursion_depth=rng.choice([1, 2, 3, 8]) if rng.random() < 0.5 else 1024,
                output_initial_size=rng.choice([0, 1, 5, 1024]), output_resize_factor=rng.choice([1.5, 1.0, 0.0, -3.0, float("nan"), 1.01, 8.0]))
    if rng.random() < 0.03:
        args["recursion_depth"] = 0      # negative sizes are refused by the allocator
    rec.step("%s %r\n%s" % (cls.__name__, args, source))
    try:
        m = cls(source, **args)
    except (ValueError, IndexError, MemoryError, RuntimeError, UnicodeDecodeError) as e:
        rec.count("did not compile")
        rec.sig("no", re.sub(r"[0-9]+", "N", str(e))[:60])
        return
    rec.count("compiled")
    names = re.findall(r"input[ \t]+(\S+)", source)
    # without loops, running straight through ends
    ends = not re.search(r"(^|\s)(begin|do|recurse|:)(\s|$)", source)
    errors = set()
    log = []
    for _ in range(rng.randint(1, 6)):
        act = rng.choice(["begin", "begin", "steps", "steps", "steps", "run", "resume", "call", "push", "pop", "look", "look", "text", "reset", "clear"])
        log.append(act)
        rec.step("%s %r\n%s\n%s" % (cls.__name__, args, source, log))
        try:
            if act == "begin":
                m.begin(buffers(rng, names))
            elif act == "steps":
                for _ in range(rng.choice([1, 3, 40, 300])):
                    e = m.step(**NORAISE)
                    errors.add(e)
                    if e is not None or m.is_done:
                        break
            elif act == "run" and ends:
                errors.add(m.run(buffers(rng, names), **NORAISE))
            elif act == "resume" and ends:
                errors.add(m.resume(**NORAISE))
            elif act == "call" and ends:
                errors.add(m.call(rng.choice(m.dictionary or ["nothing"]), **NORAISE))
            elif act == "push":
                for _ in range(rng.choice([1, 2, 10])):
                    m.stack_push(rng.choice([0, 1, -1, 5, 2**31 - 1, -2**31]))
            elif act == "pop":
                for _ in range(rng.choice([1, 2, 10])):
                    m.stack_pop()
            elif act == "look":
                m.stack, m.variables, m.is_done, m.is_ready, m.current_recursion_depth, m.current_bytecode_position
                for n in names:
                    m.input_position(n)
                for n, a in m.outputs.items():
                    np.asarray(a).tolist()
                    getattr(m, rng.choice(["output_Index8", "output_IndexU8", "output_Index32", "output_IndexU32", "output_Index64"]))(n)
                m.current_instruction
            elif act == "text":
                m.decompiled, ak_list(m.bytecodes), m.dictionary
                m.string_at(rng.choice([0, 1, -1, 10**6]))
                m["v0"], m["out0"], m["w0"]
            elif act == "reset":
                m.reset()
            elif act == "clear":
                m.stack_clear()
        except (ValueError, IndexError, RuntimeError, BufferError, TypeError, KeyError, MemoryError, UnicodeDecodeError) as e:
            errors.add(type(e).__name__)
    rec.sig(tuple(sorted(set(source.split())))[:12], tuple(sorted(map(str, errors))))
    rec.sig(tuple(log), tuple(sorted(map(str, errors))))


def ak_list(lay):
    import awkward as ak
    return ak.to_list(lay)


def terminating(rng, big):
    """A program whose end the reference machine has seen, with its inputs."""
    for _ in range(20):
        p = forth.Gen(rng).program()
        bits = rng.choice([32, 64])
        sizes = {n: rng.choice([1, 8, 40, 200, 2000]) for n in p.inputs}
        m = forth.Machine(p, bits, 1024, 60, rng, sizes, budget=big)
        try:
            try:
                for _ in m.run():
                    pass
            except forth.Stop:
                pass
        except forth.Budget:
            continue
        return p, bits, {n: bytes(b) for n, b in m.data.items()}
    raise Skip("no program")


BULK = ["input in0 output out0 float64 output out1 int32 output out2 int64 %d 0 do 0 in0 seek %d in0 #!%s-> out0 0 in0 seek 5 in0 #!i-> out1 0 in0 seek 8 in0 #5bit-> out2 i out1 +<- stack loop out1 len out0 len",
        "input in0 variable v0 output out0 int64 output out1 float32 : f dup 0 > if 1- recurse then 1 v0 +! ; %d 0 do 0 in0 seek 7 f %d in0 #!%s-> out1 in0 pos out0 <- stack 2 in0 #varint-> out0 loop v0 @"]


def batch(rng, n):
    out = []
    for _ in range(n):
        if rng.random() < 0.3:
            src = rng.choice(BULK) % (rng.choice([3, 20]), rng.choice([1, 4, 10]), rng.choice("hiqHIQdfnN"))
            data = np.array([rng.randint(0, 100) for _ in range(60)], np.uint8).tobytes() + bytes(4)
            out.append((src, rng.choice([32, 64]), {"in0": data}))
        else:
            p, bits, data = terminating(rng, 600)
            out.append((p.source, bits, data))
    return out


def threads(rng, rec):
    progs = batch(rng, 6)
    ins = [{n: np.frombuffer(b, np.uint8).copy() for n, b in d.items()} for _, _, d in progs]
    rec.step("threads\n%s" % "\n".join(s for s, _, _ in progs))

    def one(k, m=None):
        src, bits, _ = progs[k]
        cls = awkward.forth.ForthMachine32 if bits == 32 else awkward.forth.ForthMachine64
        m = cls(src, output_initial_size=3, recursion_depth=60)
        e = m.run(ins[k], **NORAISE)
        while e is None and not m.is_done:
            e = m.resume(**NORAISE)
        return (e, list(m.stack), sorted(m.variables.items()), [(n, np.asarray(a).tobytes()) for n, a in sorted(m.outputs.items())],
                [m.input_position(n) for n in sorted(ins[k])])
    alone = [one(k) for k in range(len(progs))]
    bad, errs = [], []
    bar = threading.Barrier(4)

    def work(t):
        try:
            bar.wait()
            for r in range(3):
                for q in range(len(progs)):
                    k = (q + (t if r % 2 else 0)) % len(progs)
                    got = one(k)
                    if got != alone[k]:
                        bad.append((k, got))
        except Exception as e:
            errs.append(e)
    ts = [threading.Thread(target=work, args=(t,)) for t in range(4)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise Violation("threads: %s" % type(errs[0]).__name__, str(errs[0]))
    if bad:
        k, got = bad[0]
        raise Violation("threads: differs from alone", "%s\nalone   %s\nthreads %s" % (progs[k][0], str(alone[k])[:1500], str(got)[:1500]))
    for k, (s, b, d) in enumerate(progs):
        if any(ins[k][n].tobytes() != d[n] for n in d):
            raise Violation("threads: input was modified", s)
        rec.sig("threads", str(sorted(set(s.split())))[:80], alone[k][0])
    rec.count("concurrent runs", 4 * 3 * len(progs))


def tsan(rng, rec):
    if not os.path.exists(HARNESS):
        raise Violation("harness missing", HARNESS)
    progs = batch(rng, 25)
    path = os.path.join(os.environ["VERIF_TMP"], "progs%d" % os.getpid())
    with open(path, "wb") as f:
        f.write(b"%d\n" % len(progs))
        for s, b, d in progs:
            f.write(("%d 1024 60 3 1.5 %d " % (b, len(d)) + " ".join("%s x%s" % (n, v.hex()) for n, v in sorted(d.items()))).encode())
            src = s.encode()
            f.write(b" %d " % len(src) + src + b"\n")
    rec.step("ThreadSanitizer batch")
    r = subprocess.run([HARNESS, path, "4", "4"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100,
                       env={"PATH": os.environ["PATH"], "TSAN_OPTIONS": "exitcode=66:halt_on_error=0:second_deadlock_stack=1",
                            "TSAN_SYMBOLIZER_PATH": "/usr/lib/llvm-18/bin/llvm-symbolizer"})
    err = r.stderr.decode("utf-8", "replace")
    os.remove(path)
    if "WARNING: ThreadSanitizer" in err:
        summ = re.findall(r"SUMMARY: ThreadSanitizer: (.*)", err)
        raise Violation("ThreadSanitizer: " + re.sub(r"0x[0-9a-f]+", "", summ[0] if summ else "report")[:120], err[:5000])
    if r.returncode == 3:
        raise Violation("threads: differs from alone (C++)", err[:4000])
    n = re.search(r"RUNS (\d+) bad 0", err)
    if r.returncode != 0 or not n:
        raise Violation("threads: harness died (%d)" % r.returncode, err[-4000:])
    rec.count("runs under ThreadSanitizer", int(n.group(1)))
    rec.sig("tsan", r.returncode, n.group(1))
