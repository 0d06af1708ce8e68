BUGS = [
dict(id="c01-bitmask-tail", property="C01",
  edits=[("src/libawkward/array/BitMaskedArray.cpp", "    Index8 bytemask(mask_.length() * 8);\n    struct Error err = kernel::BitMaskedArray_to_ByteMaskedArray(\n      kernel::lib::cpu,   // DERIVE\n      bytemask.data(),\n      mask_.data(),\n      mask_.length(),\n      valid_when_,\n      lsb_order_);\n    util::handle_error(err, classname(), identities_.get());\n    return bytemask.getitem_range_nowrap(0, length_);",
          "    Index8 bytemask(length_);\n    struct Error err = kernel::BitMaskedArray_to_ByteMaskedArray(\n      kernel::lib::cpu,   // DERIVE\n      bytemask.data(),\n      mask_.data(),\n      mask_.length(),\n      valid_when_,\n      lsb_order_);\n    util::handle_error(err, classname(), identities_.get());\n    return bytemask;")],
  env="export LD_PRELOAD=/lib/x86_64-linux-gnu/libc_malloc_debug.so.0 MALLOC_CHECK_=3\n",
  needs="a BitMaskedArray whose length is not a multiple of 8 (the bytes for the unused bits are written past the allocation)",
  breaks="ak.is_none on a BitMaskedArray writes up to 7 bytes past the end of a heap buffer",
  demo='''
import numpy as np, awkward as ak
L = ak.layout
n = 8 * 50 + 1
a = L.BitMaskedArray(L.IndexU8(np.full((n + 7) // 8, 0xAA, np.uint8)), L.NumpyArray(np.arange(n)), True, n, True)
for _ in range(200):
    m = np.asarray(a.bytemask()).copy()
    assert len(m) == n and m[0] == 1 and m[1] == 0
    del m
print("ok")
'''),
dict(id="c02-regular-negstep", property="C02",
  edits=[("src/libawkward/array/RegularArray.cpp", "      int64_t diff = regular_start - regular_stop;\n      nextsize = diff / regular_step;\n      if (diff % regular_step != 0) {\n        nextsize++;\n      }\n",
          "      int64_t diff = regular_start - regular_stop;\n      nextsize = diff / regular_step;\n      if (diff % regular_step > regular_step / 4) {\n        nextsize++;\n      }\n")],
  needs="a negative step of magnitude 4 or more over a regular dimension with a remainder of 1",
  breaks="array[:, ::-4] over a RegularArray of size 5 drops the last element",
  demo='''
import numpy as np, awkward as ak
L = ak.layout
for size in range(1, 8):
    n = np.arange(3 * size).reshape(3, size)
    a = ak.Array(L.RegularArray(L.NumpyArray(np.arange(3 * size)), size))
    for start in [None] + list(range(-size, size)):
        for stop in [None] + list(range(-size, size)):
            for step in (-1, -2, -3, -4):
                assert a[:, start:stop:step].tolist() == n[:, start:stop:step].tolist(), (size, start, stop, step)
print("ok")
'''),
dict(id="c04-argmax-bytemask", property="C04",
  edits=[("src/libawkward/array/ByteMaskedArray.cpp", "            kernel::ByteMaskedArray_reduce_next_nonlocal_nextshifts_fromshifts_64(\n          kernel::lib::cpu,   // DERIVE\n          nextshifts.data(),\n          mask_.data(),\n          mask_.length(),\n          valid_when_,",
          "            kernel::ByteMaskedArray_reduce_next_nonlocal_nextshifts_fromshifts_64(\n          kernel::lib::cpu,   // DERIVE\n          nextshifts.data(),\n          mask_.data(),\n          mask_.length(),\n          true,")],
  needs="argmin/argmax over a ByteMaskedArray with valid_when=False inside lists of different lengths, along an outer axis, with missing values before the extreme",
  breaks="argmax positions are those of the compacted, not of the original, group",
  demo='''
import numpy as np, awkward as ak
L = ak.layout
for vw in (True, False):
    mask = np.array([0, 1, 0, 0, 1, 0], bool)          # missing
    a = ak.Array(L.ByteMaskedArray(L.Index8((mask != vw).astype(np.int8)), L.NumpyArray(np.array([1, 9, 2, 7, 9, 3])), vw))
    assert a.tolist() == [1, None, 2, 7, None, 3], a.tolist()
    assert ak.argmax(a, axis=0) == 3, (vw, ak.argmax(a, axis=0))
    b = ak.Array(L.ListOffsetArray64(L.Index64(np.array([0, 3, 6])), a.layout))
    assert ak.argmax(b, axis=1).tolist() == [2, 0], (vw, ak.argmax(b, axis=1).tolist())
    mask = np.array([1, 1, 1, 0, 1, 0], bool)
    c = L.ByteMaskedArray(L.Index8((mask != vw).astype(np.int8)), L.NumpyArray(np.array([1, 9, 2, 7, 9, 3])), vw)
    c = ak.Array(L.ListOffsetArray64(L.Index64(np.array([0, 1, 3, 4, 6])), c))
    assert c.tolist() == [[None], [None, None], [7], [None, 3]]
    assert ak.argmax(c, axis=0).tolist() == [2, 3], (vw, ak.argmax(c, axis=0).tolist())
print("ok")
'''),
dict(id="c05-argsort-unstable", property="C05",
  edits=[("src/cpu-kernels/awkward_argsort.cpp", "      std::stable_sort(start, stop, [&fromptr](int64_t i1, int64_t i2) {\n        return fromptr[i1] > fromptr[i2];\n      });",
          "      std::sort(start, stop, [&fromptr](int64_t i1, int64_t i2) {\n        return fromptr[i1] > fromptr[i2];\n      });")],
  needs="a descending stable argsort of a list of more than 16 elements with ties",
  breaks="equal elements do not keep their original order although stable=True",
  demo='''
import numpy as np, awkward as ak
x = np.arange(60) % 3
got = ak.argsort(ak.Array([x.tolist()]), axis=1, ascending=False, stable=True).tolist()[0]
assert got == sorted(range(60), key=lambda i: -x[i]), got
print("ok")
'''),
]
