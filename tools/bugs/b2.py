BUGS = [
dict(id="c11-clear-reuse", property="C11",
  edits=[("src/libawkward/builder/GrowableBuffer.cpp", "    length_ = 0;\n    reserved_ = options_.initial();\n    ptr_ = kernel::malloc<T>(kernel::lib::cpu, options_.initial()*(int64_t)sizeof(T));\n",
          "    length_ = 0;\n    if (reserved_ != options_.initial()) {\n      reserved_ = options_.initial();\n      ptr_ = kernel::malloc<T>(kernel::lib::cpu, options_.initial()*(int64_t)sizeof(T));\n    }\n")],
  needs="a snapshot taken before clear(), appends after it, and fewer items than the initial reservation",
  breaks="clear() reuses the buffer that an earlier snapshot still shows, so later appends overwrite it",
  demo='''
import awkward as ak
b = ak.layout.ArrayBuilder(initial=16)
for i in range(5):
    b.integer(i)
s = b.snapshot()
assert ak.to_list(s) == [0, 1, 2, 3, 4]
b.clear()
for i in range(5):
    b.integer(100 + i)
assert ak.to_list(b.snapshot()) == [100, 101, 102, 103, 104]
assert ak.to_list(s) == [0, 1, 2, 3, 4], ak.to_list(s)
print("ok")
'''),
dict(id="c10-merge-optionindex32", property="C10",
  edits=[("src/libawkward/array/IndexedArray.cpp", "      else if (IndexedOptionArray32* raw = dynamic_cast<IndexedOptionArray32*>(array.get())) {\n        is_option = true;\n        contents.push_back(raw->content());\n        Index32 array_index = raw->index();\n        struct Error err = kernel::IndexedArray_fill<int32_t, int64_t>(\n          ptr_lib,\n          nextindex.data(),\n          length_so_far,\n          array_index.data(),\n          array.get()->length(),\n          contentlength_so_far);\n        util::handle_error(err, array.get()->classname(), array.get()->identities().get());\n        contentlength_so_far += raw->content().get()->length();\n",
          "      else if (IndexedOptionArray32* raw = dynamic_cast<IndexedOptionArray32*>(array.get())) {\n        is_option = true;\n        contents.push_back(raw->content());\n        Index32 array_index = raw->index();\n        struct Error err = kernel::IndexedArray_fill<int32_t, int64_t>(\n          ptr_lib,\n          nextindex.data(),\n          length_so_far,\n          array_index.data(),\n          array.get()->length(),\n          contentlength_so_far);\n        util::handle_error(err, array.get()->classname(), array.get()->identities().get());\n        contentlength_so_far += array.get()->length();\n")],
  needs="an IndexedOptionArray32 whose content is longer or shorter than its index, merged before another indexed array",
  breaks="ak.concatenate takes the elements of the later arrays from the wrong positions",
  demo='''
import numpy as np, awkward as ak
L = ak.layout
a = ak.Array(L.IndexedOptionArray32(L.Index32(np.array([2, -1, 0], np.int32)), L.NumpyArray(np.array([0., 1., 2., 3., 4.]))))
b = ak.Array([10., None, 30.])
assert ak.concatenate([a, b]).tolist() == [2., None, 0., 10., None, 30.], ak.concatenate([a, b]).tolist()
assert ak.concatenate([b, a, b]).tolist() == [10., None, 30., 2., None, 0., 10., None, 30.]
print("ok")
'''),
dict(id="c17-step-boundary", property="C17",
  edits=[("src/libawkward/partition/PartitionedArray.cpp", "          offset = ((offset - plen) % step + step) % step;\n        }\n\n",
          "          offset = step - (plen - offset) % step;\n        }\n\n")],
  needs="a slice with a step across three or more partitions, where a middle partition ends on a step boundary",
  breaks="array[::step] of a partitioned array drops elements after that partition",
  demo='''
import numpy as np, awkward as ak
n = np.arange(24)
for cuts in ([0, 4, 8, 24], [0, 3, 9, 12, 24], [0, 5, 6, 10, 24], [0, 6, 12, 18, 24], [0, 1, 2, 3, 4, 24]):
    p = ak.partitioned([ak.Array(n[a:b]) for a, b in zip(cuts, cuts[1:])])
    for step in (1, 2, 3, 4, 5):
        for start in (None, 0, 1, 2, 5):
            assert p[start::step].tolist() == n[start::step].tolist(), (cuts, start, step)
print("ok")
'''),
dict(id="c22-arrow-inplace", property="C22",
  edits=[("src/awkward/operations/convert.py", "            index = numpy.array(layout.index, copy=True)\n            nulls = index < 0\n            index[nulls] = 0\n\n            if layout.parameter(\"__array__\") == \"categorical\":\n                dictionary = recurse(layout.content, None, False)\n",
          "            index = numpy.asarray(layout.index)\n            nulls = index < 0\n            index[nulls] = 0\n\n            if layout.parameter(\"__array__\") == \"categorical\":\n                dictionary = recurse(layout.content, None, False)\n")],
  needs="ak.to_arrow of an array with an IndexedOptionArray that has missing values, and use of the array afterwards",
  breaks="ak.to_arrow overwrites the missing-value markers of its input",
  demo='''
import awkward as ak
a = ak.Array([1.1, None, 3.3, None])
x = ak.to_arrow(a)
assert x.to_pylist() == [1.1, None, 3.3, None]
assert a.tolist() == [1.1, None, 3.3, None], a.tolist()
print("ok")
'''),
dict(id="c25-categories-order", property="C25",
  edits=[("src/awkward/behaviors/categorical.py", "    if len(one_content) == len(two_content) and ak.operations.reducers.all(\n        one_content == two_content, axis=None\n    ):\n",
          "    if len(one_content) == len(two_content) and set(\n        _hashable(x) for x in ak.operations.convert.to_list(one_content)\n    ) == set(_hashable(x) for x in ak.operations.convert.to_list(two_content)):\n")],
  needs="two categorical arrays with the same set of categories in a different order",
  breaks="comparing them compares category numbers, not values",
  demo='''
import awkward as ak
a = ak.to_categorical(ak.Array(["one", "two", "one", "three"]))
b = ak.to_categorical(ak.Array(["two", "one", "one", "three"]))
c = ak.to_categorical(ak.Array(["four", "two", "three", "one"]))
assert (a == a).tolist() == [True] * 4
assert (a == b).tolist() == [False, False, True, True], (a == b).tolist()
assert (a == c).tolist() == [False, True, False, False]
print("ok")
'''),
dict(id="c06-union-combos", property="C06",
  edits=[("src/awkward/_util.py", "            tags = nplike.empty(length, dtype=np.int8)\n            index = nplike.empty(length, dtype=np.int64)\n            numoutputs = None\n            outcontents = []\n            for tag, combo in enumerate(all_combos):\n                mask = combos == combo\n                tags[mask] = tag\n                index[mask] = nplike.arange(nplike.count_nonzero(mask))\n",
          "            tags = nplike.empty(length, dtype=np.int8)\n            index = nplike.empty(length, dtype=np.int64)\n            numoutputs = None\n            outcontents = []\n            for tag, combo in enumerate(all_combos):\n                mask = combos == combo\n                tags[mask] = tag\n                index[mask] = nplike.arange(nplike.count_nonzero(mask), dtype=np.uint8)\n")],
  needs="a union array with more than 256 elements of one type in an elementwise operation",
  breaks="elements beyond the 256th of a type get the value of an earlier element",
  demo='''
import numpy as np, awkward as ak
data = []
for i in range(400):
    data.append(i)
    data.append([i, i + 1])
a = ak.Array(data)
assert (a + 1).tolist() == [x + 1 if isinstance(x, int) else [y + 1 for y in x] for x in data]
print("ok")
'''),
dict(id="c19-zigzag-wide", property="C19",
  edits=[("src/libawkward/forth/ForthMachine.cpp", "                result |= (int64_t)(*byte & 0x7f) << shift;\n                shift += 7;\n              } while (*byte & 0x80);\n\n              // This is the difference",
          "                result |= (uint32_t)(*byte & 0x7f) << (shift & 31);\n                shift += 7;\n              } while (*byte & 0x80);\n\n              // This is the difference")],
  needs="a zigzag-encoded integer of five or more bytes",
  breaks="large zigzag-encoded integers are decoded wrongly",
  demo='''
import numpy as np
from awkward.forth import ForthMachine64
def enc(x):
    u = (x << 1) ^ (x >> 63)
    u &= (1 << 64) - 1
    out = []
    while True:
        b = u & 0x7f
        u >>= 7
        out.append(b | (0x80 if u else 0))
        if not u:
            return out
vals = [0, -1, 1, 63, -64, 2**20, -2**27, 2**31, -2**33, 2**45 + 12345]
data = np.array(sum(map(enc, vals), []), np.uint8)
vm = ForthMachine64("input x output y int64 %d x #zigzag-> y" % len(vals))
vm.run({"x": data})
assert np.asarray(vm["y"]).tolist() == vals, np.asarray(vm["y"]).tolist()
print("ok")
'''),
dict(id="c20-varint-push", property="C20",
  edits=[("src/libawkward/forth/ForthMachine.cpp", "              if (output == nullptr) {\n                if (stack_cannot_push()) {\n                  current_error_ = util::ForthError::stack_overflow;\n                  return;\n                }\n                stack_push((T)result);   // note: pushing result\n",
          "              if (output == nullptr) {\n                if (count == 0  &&  stack_cannot_push()) {\n                  current_error_ = util::ForthError::stack_overflow;\n                  return;\n                }\n                stack_push((T)result);   // note: pushing result\n")],
  needs="a counted varint read onto the stack with more items than the stack has room for",
  breaks="the machine writes past the end of its stack instead of reporting a stack overflow",
  demo='''
import numpy as np
from awkward.forth import ForthMachine64
vm = ForthMachine64("input x 12 x #varint-> stack", stack_size=8)
try:
    vm.run({"x": np.arange(64, dtype=np.uint8)})
except ValueError as err:
    assert "stack overflow" in str(err), err
else:
    raise AssertionError("no stack overflow: %r" % (vm.stack,))
assert len(vm.stack) <= 8
print("ok")
'''),
dict(id="c24-none2empty-base", property="C24",
  edits=[("src/cpu-kernels/awkward_IndexedArray_flatten_none2empty.cpp", "    else if (idx + 1 >= offsetslength) {", "    else if (idx + 1 > offsetslength) {")],
  needs="an index that points one past the last list",
  breaks="the kernel reads one element past the offsets instead of reporting an error",
  demo='''
import ctypes, glob, numpy as np
class Error(ctypes.Structure):
    _fields_ = [("str", ctypes.c_char_p), ("filename", ctypes.c_char_p), ("id", ctypes.c_int64), ("attempt", ctypes.c_int64), ("pass_through", ctypes.c_bool)]
lib = ctypes.CDLL(glob.glob("/repo/_build/pkg/awkward/libawkward-cpu-kernels.so*")[0])
f = lib.awkward_IndexedArray64_flatten_none2empty_64
f.restype = Error
P = ctypes.POINTER(ctypes.c_int64)
def run(index, offsets):
    index = np.array(index, np.int64); full = np.array(offsets + [99] * 4, np.int64); out = np.zeros(len(index) + 1, np.int64)
    e = f(out.ctypes.data_as(P), index.ctypes.data_as(P), ctypes.c_int64(len(index)), full.ctypes.data_as(P), ctypes.c_int64(len(offsets)))
    return e.str, out.tolist()
s, out = run([0, -1, 1], [0, 2, 5])
assert s is None and out == [0, 2, 2, 5], (s, out)
s, out = run([2], [0, 2, 5])
assert s is not None, out
s, out = run([7], [0, 2, 5])
assert s is not None, out
print("ok")
'''),
dict(id="c23-record-lastfield", property="C23",
  edits=[("src/libawkward/array/RecordArray.cpp", "    for (int64_t i = 0;  i < numfields();  i++) {\n      if (field(i).get()->length() < length_) {\n        return (std::string(\"at \")",
          "    for (int64_t i = 0;  i + 1 < numfields();  i++) {\n      if (field(i).get()->length() < length_) {\n        return (std::string(\"at \")")],
  needs="a record array whose last field only is too short",
  breaks="ak.is_valid accepts records whose last field has no value for some of them",
  demo='''
import numpy as np, awkward as ak
L = ak.layout
def rec(*lens):
    return L.RecordArray([L.NumpyArray(np.arange(n)) for n in lens], ["f%d" % i for i in range(len(lens))], 4)
assert ak.is_valid(rec(4, 4, 5))
for lens in ((3, 4, 4), (4, 3, 4), (4, 4, 3), (3,)):
    assert not ak.is_valid(rec(*lens)), lens
print("ok")
'''),
dict(id="c21-type-numfields", property="C21",
  edits=[("src/libawkward/type/RecordType.cpp", "      if (numfields() != t->numfields()) {\n        return false;\n      }\n      if (recordlookup_.get() != nullptr) {\n        if (t->istuple()) {",
          "      if (numfields() > t->numfields()) {\n        return false;\n      }\n      if (recordlookup_.get() != nullptr) {\n        if (t->istuple()) {")],
  needs="comparing two record types where the second has all the fields of the first and more",
  breaks="different record types compare equal",
  demo='''
import awkward as ak
T = ak.types
a = T.RecordType({"x": T.PrimitiveType("int64")})
b = T.RecordType({"x": T.PrimitiveType("int64"), "y": T.PrimitiveType("float64")})
assert a == a and b == b
assert not (b == a)
assert not (a == b)
assert ak.type(ak.Array([{"x": 1}])) != ak.type(ak.Array([{"x": 1, "y": 2.2}]))
print("ok")
'''),
dict(id="c27-numeric-names", property="C27",
  edits=[("src/libawkward/util.cpp", "      int64_t out = -1;\n      if (recordlookup.get() != nullptr) {\n        for (size_t i = 0; i < recordlookup.get()->size(); i++) {\n          if (recordlookup.get()->at(i) == key) {",
          "      int64_t out = -1;\n      if (recordlookup.get() != nullptr) {\n        for (size_t i = 0; i < recordlookup.get()->size(); i++) {\n          if (recordlookup.get()->at(i) == key  ||  std::to_string(i) == key) {")],
  needs="a record whose field names are numbers in another order than their positions",
  breaks="array['1'] returns the field in position 1 instead of the field named '1'",
  demo='''
import awkward as ak
a = ak.Array([{"1": 10, "0": 20, "2": 30}, {"1": 11, "0": 21, "2": 31}])
assert a["1"].tolist() == [10, 11], a["1"].tolist()
assert a["0"].tolist() == [20, 21]
assert a.tolist() == [{"1": 10, "0": 20, "2": 30}, {"1": 11, "0": 21, "2": 31}], a.tolist()
print("ok")
'''),
dict(id="c09-padclip-bytemask", property="C09",
  edits=[("src/libawkward/array/ByteMaskedArray.cpp", "      ContentPtr next = project().get()->rpad_and_clip(target, posaxis, depth);",
          "      ContentPtr next = content_.get()->rpad_and_clip(target, posaxis, depth);")],
  needs="pad_none with clip=True over lists that are optional through a byte mask, with a missing list before a present one",
  breaks="the padded lists are those of other positions",
  demo='''
import numpy as np, awkward as ak
L = ak.layout
lists = L.ListOffsetArray64(L.Index64(np.array([0, 2, 3, 6])), L.NumpyArray(np.array([1, 2, 3, 4, 5, 6])))
for vw in (True, False):
    a = ak.Array(L.ByteMaskedArray(L.Index8(np.array([vw, not vw, vw]).astype(np.int8)), lists, vw))
    assert a.tolist() == [[1, 2], None, [4, 5, 6]]
    assert ak.pad_none(a, 4, axis=1).tolist() == [[1, 2, None, None], None, [4, 5, 6, None]]
    assert ak.pad_none(a, 2, axis=1, clip=True).tolist() == [[1, 2], None, [4, 5]], ak.pad_none(a, 2, axis=1, clip=True).tolist()
print("ok")
'''),
]
