BUGS = [
dict(id="c16-step-length", property="C16",
     edits=[("src/libawkward/array/VirtualArray.cpp", """            int64_t d = numer / denom;
            int64_t m = numer % denom;
            length = d + (m != 0 ? 1 : 0);""", """            length = (numer + denom / 2) / denom;""")],
     needs="a lazy array that has not been read, sliced with a step of 3 or more that leaves a remainder",
     breaks="the slice of a lazy array is shorter than the same slice of the array it stands for",
     demo="""
import numpy as np, awkward as ak
for n in (4, 7, 10, 13):
    for step in (1, 2, 3, 4, 5, -1, -3, -4):
        a = ak.virtual(lambda: ak.Array(np.arange(n)), length=n)
        got = a[::step]
        want = list(range(n))[::step]
        assert len(got) == len(want) and got.tolist() == want, (n, step, got.tolist())
print("ok")
"""),
dict(id="c18-bitmask-shift", property="C18",
     edits=[("src/awkward/_connect/_numba/layout.py", """            builder.srem(maskatval, context.get_constant(numba.intp, 8)),""", """            builder.srem(atval, context.get_constant(numba.intp, 8)),""")],
     needs="a bit-masked array seen through a view that does not start at a multiple of 8 (lists of optional values, or a loop over a slice)",
     breaks="compiled functions see None where there is a value and the other way round",
     demo="""
import numpy as np, awkward as ak, numba as nb
L = ak.layout
bits = np.array([0b10110010, 0b01011101], np.uint8)
inner = L.BitMaskedArray(L.IndexU8(bits), L.NumpyArray(np.arange(16.0)), valid_when=True, length=16, lsb_order=True)
a = ak.Array(L.ListOffsetArray64(L.Index64(np.array([0, 3, 3, 10, 16])), inner))
@nb.njit
def f(x):
    n = 0
    s = 0.0
    for y in x:
        for z in y:
            if z is None:
                n += 1
            else:
                s += z
    return n, s
flat = [z for y in a.tolist() for z in y]
want = (sum(z is None for z in flat), sum(z for z in flat if z is not None))
assert f(a) == want, (f(a), want)
print("ok")
"""),
]
