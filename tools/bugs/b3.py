BUGS = [
dict(id="c03-bitmask-order", property="C03",
  edits=[("src/libawkward/array/BitMaskedArray.cpp", "    struct Error err = kernel::BitMaskedArray_to_IndexedOptionArray64(\n      kernel::lib::cpu,   // DERIVE\n      index.data(),\n      mask_.data(),\n      mask_.length(),\n      valid_when_,\n      lsb_order_);",
          "    struct Error err = kernel::BitMaskedArray_to_IndexedOptionArray64(\n      kernel::lib::cpu,   // DERIVE\n      index.data(),\n      mask_.data(),\n      mask_.length(),\n      valid_when_,\n      lsb_order_  ||  length_ > 8);")],
  needs="a BitMaskedArray in most-significant-bit order with more than eight elements, in an operation that converts it to an index (merging, simplifying, carrying)",
  breaks="other elements than the missing ones are missing in the result",
  demo='''
import numpy as np, awkward as ak
L = ak.layout
miss = np.array([0, 1, 0, 0, 0, 0, 1, 1, 0, 1, 0, 0], bool)
x = np.arange(12) * 1.1
for lsb in (True, False):
    bits = np.packbits(~miss, bitorder="little" if lsb else "big")
    a = ak.Array(L.BitMaskedArray(L.IndexU8(bits), L.NumpyArray(x), True, 12, lsb))
    want = [None if m else v for m, v in zip(miss, x)]
    assert a.tolist() == want
    assert ak.concatenate([a, a]).tolist() == want + want, (lsb, ak.concatenate([a, a]).tolist())
print("ok")
'''),
dict(id="c07-regular-replacement", property="C07",
  edits=[("src/libawkward/array/RegularArray.cpp", "      int64_t size = size_;\n      if (replacement) {\n        size += (n - 1);\n      }\n      int64_t thisn = n;",
          "      int64_t size = size_;\n      if (replacement) {\n        size = (size_ == 1 ? n : size_ + (n - 1) - (n > 3));\n      }\n      int64_t thisn = n;")],
  needs="combinations of four or more with replacement over regular lists",
  breaks="too few combinations are counted, so the work buffers overflow and tuples are lost",
  env="export LD_PRELOAD=/lib/x86_64-linux-gnu/libc_malloc_debug.so.0 MALLOC_CHECK_=3\n",
  demo='''
import itertools, numpy as np, awkward as ak
for size in (1, 2, 3):
    a = ak.Array(np.arange(2 * size).reshape(2, size))
    for n in (2, 3, 4, 5):
        got = [[tuple(t[str(i)] for i in range(n)) if isinstance(t, dict) else t for t in row] for row in ak.combinations(a, n, replacement=True).tolist()]
        want = [list(itertools.combinations_with_replacement(row, n)) for row in a.tolist()]
        assert got == want, (size, n)
print("ok")
'''),
dict(id="c12-uint32", property="C12",
  edits=[("src/libawkward/io/json.cpp", "    bool Uint(unsigned int x) {\n      moved_ = true;\n      builder_.integer((int64_t)x);", "    bool Uint(unsigned int x) {\n      moved_ = true;\n      builder_.integer((int64_t)(int)x);")],
  needs="integers between 2**31 and 2**32 in the JSON text",
  breaks="they are read as negative numbers",
  demo='''
import awkward as ak
v = [0, 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32, -2**31, -2**31 - 1, 2**63 - 1]
assert ak.from_json(str(v)).tolist() == v, ak.from_json(str(v)).tolist()
print("ok")
'''),
dict(id="c13-list-stops", property="C13",
  edits=[("src/awkward/operations/convert.py", "            0 if len(array_stops) == 0 else numpy.max(array_stops),\n", "            0 if len(array_stops) == 0 else array_stops[-1],\n")],
  needs="a ListArray whose last non-empty list does not reach furthest into the content",
  breaks="from_buffers and unpickling cut the content short: lists refer to elements that are not there",
  demo='''
import pickle, numpy as np, awkward as ak
L = ak.layout
a = ak.Array(L.ListArray64(L.Index64(np.array([3, 0, 2])), L.Index64(np.array([5, 2, 3])), L.NumpyArray(np.arange(5) * 1.1)))
want = a.tolist()
b = ak.from_buffers(*ak.to_buffers(a))
assert ak.is_valid(b) and b.tolist() == want
r = ak.from_buffers(*ak.to_buffers(ak.Array(L.ListArray64(L.Index64(np.array([3, 0, 2])), L.Index64(np.array([5, 2, 3])), L.RecordArray([L.NumpyArray(np.arange(5))], ["x"])))))
assert ak.is_valid(r) and r.x.tolist() == [[3, 4], [0, 1], [2]], r.x.tolist()
print("ok")
'''),
dict(id="c15-mask-order", property="C15",
     edits=[("src/awkward/operations/convert.py", """            regulararray = True
            mask = mask.reshape(-1)""", """            regulararray = True
            mask = mask.ravel(order="K")""")],
     needs="a NumPy masked array of two or more dimensions whose mask is not in C order (a transposed or Fortran-ordered one)",
     breaks="from_numpy puts the None's at the positions they have in memory rather than in the array",
     demo="""
import numpy as np, awkward as ak
x = np.ma.MaskedArray(np.arange(6).reshape(2, 3), np.array([[True, False, False], [False, True, True]]))
for y in (x, x.T, x[:, ::-1]):
    assert ak.from_numpy(y).tolist() == y.tolist(), (y.tolist(), ak.from_numpy(y).tolist())
print("ok")
"""),
dict(id="c14-time32", property="C14",
  edits=[("src/awkward/operations/convert.py", "    \"time32[ms]\": (True, np.dtype(\"M8[ms]\")),\n", "    \"time32[ms]\": (True, np.dtype(\"M8[s]\")),\n")],
  needs="an Arrow time32[ms] column",
  breaks="times of day are read a thousand times too late",
  demo='''
import numpy as np, awkward as ak, pyarrow as pa
for unit, t in (("s", pa.time32("s")), ("ms", pa.time32("ms")), ("us", pa.time64("us")), ("ns", pa.time64("ns"))):
    a = ak.from_arrow(pa.array([1, 86399, None], t))
    assert np.asarray(ak.to_numpy(a[:2]))[1] == np.datetime64(86399, unit), (unit, ak.to_numpy(a[:2]))
print("ok")
'''),
dict(id="c08-unflatten-trailing", property="C08",
  edits=[("src/awkward/operations/structure.py", "                nplike.searchsorted(\n                    current_offsets[0], nplike.array([len(layout)]), side=\"right\"\n                )[0]\n                - 1\n", "                nplike.searchsorted(\n                    current_offsets[0], nplike.array([len(layout)]), side=\"left\"\n                )[0]\n")],
  needs="counts that end in zeros",
  breaks="ak.unflatten drops the empty lists at the end",
  demo='''
import awkward as ak
assert ak.unflatten([1, 2, 3], [2, 0, 1]).tolist() == [[1, 2], [], [3]]
assert ak.unflatten([1, 2, 3], [3, 0, 0]).tolist() == [[1, 2, 3], [], []], ak.unflatten([1, 2, 3], [3, 0, 0]).tolist()
print("ok")
'''),
dict(id="c26-offsets-add", property="C26",
  edits=[("src/libawkward/layoutbuilder/ListOffsetArrayBuilder.cpp", "      .append(vm_output_data_).append(\" +<- stack\").append(\"\\n\")\n      .append(\"exit\").append(\"\\n\")",
          "      .append(\"255 and \").append(vm_output_data_).append(\" +<- stack\").append(\"\\n\")\n      .append(\"exit\").append(\"\\n\")")],
  needs="a list of 256 or more items filled through a LayoutBuilder",
  breaks="its length is taken modulo 256",
  demo='''
import json, awkward as ak
form = ak.forms.Form.fromjson(json.dumps({"class": "ListOffsetArray64", "offsets": "i64", "content": "int64", "form_key": "node0"}))
b = ak.layout.LayoutBuilder(form)
want = []
for n in (3, 0, 300, 2):
    b.begin_list()
    for i in range(n):
        b.int64(i)
    b.end_list()
    want.append(list(range(n)))
assert ak.to_list(b.snapshot()) == want
print("ok")
'''),
]
