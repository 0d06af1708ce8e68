"""C01 memory safety: every operation, on hostile layouts, under AddressSanitizer and UBSan."""
from vlib.ops import *

META = {
    "property": "C01",
    "technique": "runtime sanitizers: AddressSanitizer + UndefinedBehaviorSanitizer build of the C++ library driven by randomised operation chains on hostile layouts",
    "cases": {"quick": 22000, "thorough": 700000},
    "rule": "a case is a random array in a hostile layout put through 3 chains of 1-3 random public or layout-level operations, every result being walked completely; distinct = (operations of the chain, layout signature); non-trivial = at least one operation returned or raised",
    "assumptions": ["only arrays that pass the library's own validity check are fed back into further operations"],
}
CFG = Cfg(empty=True, nan=True, virtual=0.0, partitioned=0.06, biglen=0.04)

WIDE = ["complex128", "complex64", "datetime64[s]", "timedelta64[ms]"]


def idx(rng, n, hi):
    return np.array([rng.randrange(hi) for _ in range(n)] if hi > 0 else [], np.int64)


def layout_op(rng, lay):
    """A method of the layout classes (all are public in ak.layout)."""
    names = ["validityerror", "deep_copy", "carry", "num", "flatten", "offsets_and_flatten", "rpad", "rpad_and_clip", "mergemany", "merge",
             "merge_as_union", "simplify", "project", "toListOffsetArray64", "compact_offsets64", "broadcast_tooffsets64", "toRegularArray",
             "bytemask", "toIndexedOptionArray64", "toByteMaskedArray", "is_unique", "localindex", "combinations", "contiguous",
             "toNumpyArray", "numbers_to_type", "tojson", "iter", "range", "fillna", "setitem_field", "mergeable", "nbytes", "sum", "argmax", "at", "form", "jagged"]
    nm = rng.choice(names)
    n = len(lay)
    if nm == "is_unique" and not (isinstance(lay, L.NumpyArray) or lay.parameter("__array__") in ("string", "bytestring")):
        nm = "deep_copy"        # known finding C01-is-unique-nested
    ax = rng.choice([-1, 0, 1, 1, 2])
    if nm == "carry":
        i = idx(rng, rng.randint(0, 6), n)
        return nm, lambda: lay.carry(L.Index64(i), rng.random() < 0.5)
    if nm in ("num", "flatten", "offsets_and_flatten", "localindex"):
        return nm, lambda: getattr(lay, nm)(ax)
    if nm in ("rpad", "rpad_and_clip"):
        t = rng.randint(0, 5)
        return nm, lambda: getattr(lay, nm)(t, ax)
    if nm in ("merge", "merge_as_union"):
        return nm, lambda: getattr(lay, nm)(lay[::-1])
    if nm == "mergemany":
        return nm, lambda: lay.mergemany([lay[1:], lay])
    if nm == "mergeable":
        return nm, lambda: lay.mergeable(lay, rng.random() < 0.5)
    if nm == "compact_offsets64":
        return nm, lambda: lay.compact_offsets64(rng.random() < 0.5)
    if nm == "broadcast_tooffsets64":
        off = [0]
        for _ in range(n):
            off.append(off[-1] + rng.randint(0, 2))
        if rng.random() < 0.5:
            try:
                off = np.cumsum([0] + np.asarray(lay.num(1)).tolist()).tolist()
            except Exception:
                pass
        return nm, lambda: lay.broadcast_tooffsets64(L.Index64(np.array(off, np.int64)))
    if nm in ("validityerror", "deep_copy", "simplify", "project", "toListOffsetArray64", "toRegularArray", "bytemask", "toIndexedOptionArray64",
              "toByteMaskedArray", "is_unique", "contiguous", "toNumpyArray", "tojson"):
        args = (True,) if nm == "toListOffsetArray64" and rng.random() < 0.5 else ()
        return nm, lambda: getattr(lay, nm)(*args)
    if nm == "combinations":
        k, rep = rng.randint(1, 4), rng.random() < 0.5
        return nm, lambda: lay.combinations(k, rep, None, None, ax)
    if nm == "numbers_to_type":
        d = rng.choice(["int8", "float32", "int64", "bool", "uint64", "complex128", "datetime64[s]"])
        return nm, lambda: lay.numbers_to_type(d)
    if nm == "iter":
        return nm, lambda: list(iter(lay))
    if nm == "range":
        a, b = rng.randint(-n - 2, n + 2), rng.randint(-n - 2, n + 2)
        return nm, lambda: lay[a:b]
    if nm == "fillna":
        return nm, lambda: lay.fillna(L.NumpyArray(np.array([rng.choice([0, 1.5])])))
    if nm == "setitem_field":
        return nm, lambda: lay.setitem_field(rng.choice([None, "x", "new"]), lay)
    if nm == "nbytes":
        return nm, lambda: (lay.nbytes, lay.purelist_depth, lay.minmax_depth, lay.branch_depth)
    if nm in ("sum", "argmax"):
        return nm, lambda: getattr(lay, nm)(ax, rng.random() < 0.5, rng.random() < 0.5)
    if nm == "at":
        return nm, lambda: lay[rng.randint(-n - 1, n)]
    if nm == "form":
        return nm, lambda: lay.form.tojson(False, True)
    if nm == "jagged":
        def go():
            j = ak.local_index(ak.Array(lay), axis=ax)
            return lay[(j[..., ::-1] if rng.random() < 0.5 else ak.pad_none(j, 2, axis=-1)).layout]
        return nm, go
    raise AssertionError(nm)


def touch(x, rec):
    try:
        plain(x)
        rec.count("result-read")
    except Exception:
        rec.count("result-unreadable")     # judged by C23, not here
    if isinstance(x, (ak.Array, ak.Record)):
        x = x.layout
    if isinstance(x, L.Content):
        try:
            x.validityerror()
        except Exception:
            pass


def run_case(rng, rec, i):
    cfg = CFG
    if rng.random() < 0.1:
        cfg = CFG.but(prims=CFG.prims + WIDE * 3)
    ty = rand_type(rng, cfg)
    vals = rand_values(rng, ty, cfg)
    lay = make_top(ty, vals, rng, cfg)
    arr = ak.Array(lay)
    sig = describe(lay)
    shown = show_layout(lay, 2600)
    for _ in range(3):
        cur, names = arr, []
        for _ in range(rng.choice([1, 1, 2, 3])):
            inner = cur.layout
            if rng.random() < 0.3 and isinstance(inner, L.Content):
                nm, fn = layout_op(rng, inner)
                rec.step("chain %s then layout.%s on\n%s" % (names, nm, shown))
            else:
                op = rand_op(rng, ty, vals, cfg)
                extra = [ak.Array(make_top(t, v, rng, cfg)) for t, v in op.extra]
                nm, cura = op.name, cur
                fn = lambda: op.fn(cura, *extra)
                rec.step("chain %s then %s %s on\n%s" % (names, op.name, op.what[:300], shown))
            names.append(nm)
            rec.count("op:" + nm)
            try:
                out = fn()
                rec.count("returned")
            except MemoryError:
                rec.count("memory-error")
                break
            except SystemError as e:
                raise Violation("SystemError " + nm, "%s\n%s" % (e, shown))
            except Exception as e:
                rec.count("raised")
                break
            touch(out, rec)
            if isinstance(out, L.Content) and not isinstance(out, L.Record):
                try:
                    out = ak.Array(out)
                except Exception:
                    break
            if not isinstance(out, ak.Array) or len(names) > 3:
                break
            try:
                if not ak.is_valid(out) or out.layout.nbytes > 2000000:
                    break
            except Exception:
                break
            cur = out
        rec.sig(tuple(names), sig)
    rec.sample("%s: %s" % (names, short([strip(ty, v) for v in vals], 200)))

