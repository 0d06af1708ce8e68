"""Writes properties.jsonl (kept as a script because JSON lines are awkward to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

LAY = "every array value and every valid memory layout of it (all node classes, 32/U32/64-bit indexes, offsets not starting at zero, gaps, permuted and repeated indexes, strided buffers, unreachable content, bit masks of either order)"
ARR = "src/libawkward/array/*.cpp"

p("C01", "Operations on valid arrays are memory-safe and free of undefined behaviour",
  "For every valid array, however its data are laid out in memory, every public operation either returns a result or raises a Python exception. It never reads or writes outside the buffers it was given or allocated, never uses memory after releasing it, and never executes undefined behaviour or kills the process.",
  ["inputs", "programs"], "over " + LAY + " and every public operation with every argument, including nonsensical ones",
  "Tests run an uninstrumented build on a few hand-written layouts; an out-of-bounds access usually returns plausible bytes and passes.",
  ["src/cpu-kernels/*.cpp", ARR, "src/libawkward/Content.cpp", "src/libawkward/Index.cpp", "src/python/content.cpp"],
  [("kernels receive explicit lengths and return Error structs", "src/cpu-kernels/"), ("reference-counted buffers", "include/awkward/Index.h")],
  observe=["AddressSanitizer and UndefinedBehaviorSanitizer reports", "process exit status"])

p("C02", "A slice returns exactly the elements it denotes, or raises",
  "Indexing an array with any combination of integers, ranges with steps, ellipsis, newaxis, flat integer or boolean arrays, nested (jagged) integer or boolean arrays, arrays with missing values and field names returns exactly the elements, order, nesting and missing values obtained by applying NumPy's rules list by list. An index or nested selection that refers to elements the data do not have raises an exception instead of returning other data.",
  ["inputs"], "over " + LAY + " and every slice expression",
  "Tests check individual slices of individual arrays; slice items x node classes x index widths x corner values (negative steps, empty lists, all-missing) is never enumerated.",
  ["src/libawkward/Slice.cpp", "src/libawkward/Content.cpp", ARR, "src/python/content.cpp", "src/cpu-kernels/*getitem*.cpp"],
  [("getitem_next recursion over slice items", "src/libawkward/array/*.cpp"), ("jagged and missing-value slices", "src/libawkward/Content.cpp")])

p("C03", "Results do not depend on how the same data are laid out in memory",
  "Two arrays holding the same values at the same type give equal results (or both raise) for every public operation, no matter which list, option, index, mask, union or record encodings, index widths, strides, offsets or unreachable data represent them. Iteration, element access, conversion to Python and the packed form of an array all agree with one another.",
  ["inputs", "configurations"], "over pairs of layouts of the same data and every public operation",
  "Tests rarely compare two encodings of one value, and mostly use the encodings that the high-level constructors produce.",
  [ARR, "src/libawkward/Content.cpp", "src/awkward/operations/*.py", "src/awkward/_util.py"],
  [("every operation is implemented per node class", "src/libawkward/array/")])

p("C04", "Reducers aggregate each group exactly",
  "count, count_nonzero, sum, prod, any, all, min, max, argmin and argmax over any axis (or over everything), with or without keepdims, mask_identity and initial, equal the value computed group by group from the elements that axis collects, skipping missing values. Empty and all-missing groups give the operation's identity or None as requested, arg-reducers return the first extreme position within the original group, and integer, boolean and floating results follow NumPy's result types.",
  ["inputs"], "over " + LAY + " of numeric data nested to any depth, every reducer, axis and option",
  "Tests fix a handful of arrays; grouping errors depend on ragged shapes, gaps, missing values and axis together.",
  ["src/awkward/operations/reducers.py", "src/libawkward/Reducer.cpp", "src/cpu-kernels/awkward_reduce_*.cpp", "src/cpu-kernels/*reduce_next*.cpp", ARR],
  [("reduce_next with parents/starts/shifts", "src/libawkward/array/*.cpp")])

p("C05", "Sorting returns an ordered permutation of each list",
  "sort and argsort along any axis, ascending or descending, return for each group a permutation of its elements in the requested order with missing values last, and argsort returns the positions that produce it. With stable sorting, equal elements keep their original order.",
  ["inputs"], "over " + LAY + " of sortable data, every axis, direction and stability flag, with ties, empty lists and missing values",
  "Permutation, order and stability are universal statements; tests compare a few literals, mostly without ties.",
  ["src/awkward/operations/structure.py", "src/cpu-kernels/awkward_sort.cpp", "src/cpu-kernels/awkward_argsort.cpp", "src/cpu-kernels/awkward_ListOffsetArray_argsort_strings.cpp", ARR],
  [("sort_next/argsort_next", "src/libawkward/array/*.cpp")])

p("C06", "Broadcasting pairs the right elements in elementwise functions",
  "A NumPy ufunc or operator, broadcast_arrays, where, isclose or nan_to_num applied to arrays and scalars computes, at every position of the broadcast nested structure, the function of the elements at that position. Scalars and regular length-1 dimensions expand, outer values repeat over inner variable-length lists, missing values propagate, and arrays whose nested list lengths disagree raise an exception.",
  ["inputs"], "over tuples of arrays of compatible and incompatible nested shapes in " + LAY,
  "Tests pair few shapes; misalignment shows only for particular combinations of nesting, options and encodings.",
  ["src/awkward/_util.py", "src/awkward/_connect/_numpy.py", "src/awkward/operations/structure.py", "src/libawkward/array/ListArray.cpp", "src/libawkward/array/RegularArray.cpp", "src/cpu-kernels/*broadcast_tooffsets*.cpp"],
  [("broadcast_and_apply", "src/awkward/_util.py"), ("broadcast_tooffsets64", ARR)])

p("C07", "Cartesian products and combinations are complete, exact and ordered",
  "cartesian and combinations (any axis, nested or flat, with or without replacement, with or without field names) yield, within each list, every required tuple exactly once in lexicographic order and nothing else. The arg- versions yield the positions of those tuples, so that indexing with them reproduces the tuples.",
  ["inputs"], "over " + LAY + " of lists, numbers of arrays or of items per combination, axes and options",
  "Completeness and exactness are counting statements over all list lengths; tests use a few short lists.",
  ["src/awkward/operations/structure.py", "src/libawkward/util.cpp", "src/cpu-kernels/awkward_*combinations*.cpp", ARR],
  [("combinations kernels", "src/cpu-kernels/"), ("cartesian by broadcasting newaxis", "src/awkward/operations/structure.py")])

p("C08", "Restructuring lists preserves every element and its order",
  "flatten, unflatten, num, local_index, run_lengths, to_regular and from_regular, size and zip/unzip change only the nesting they are asked to change: they keep every element, in order, report the exact lengths and positions, and unflatten inverts flatten. Requests that do not fit the data raise an exception.",
  ["inputs"], "over " + LAY + ", every axis and count array",
  "Tests cover chosen examples; conservation of elements must hold for all shapes, gaps and axes.",
  ["src/awkward/operations/structure.py", ARR, "src/cpu-kernels/*flatten*.cpp", "src/cpu-kernels/*num*.cpp", "src/cpu-kernels/*localindex*.cpp"],
  [("offsets_and_flattened", ARR), ("unflatten", "src/awkward/operations/structure.py")])

p("C09", "Missing values are kept, found, padded and filled exactly where they are",
  "is_none, fill_none, pad_none (with and without clipping, at any axis), mask, singletons and firsts report, replace, insert or create missing values at exactly the denoted positions and leave every other element unchanged, for every encoding of missing data.",
  ["inputs"], "over " + LAY + " with missing values at any depth and every argument",
  "Six encodings of missing data (two index widths, byte masks of either polarity, bit masks of either polarity and order, unmasked) times lengths that are not multiples of eight are not enumerated by tests.",
  ["src/awkward/operations/structure.py", "src/libawkward/array/IndexedArray.cpp", "src/libawkward/array/ByteMaskedArray.cpp", "src/libawkward/array/BitMaskedArray.cpp", "src/libawkward/array/UnmaskedArray.cpp", "src/cpu-kernels/*rpad*.cpp", "src/cpu-kernels/awkward_BitMasked*.cpp"],
  [("rpad/fillna/simplify_optiontype", ARR)])

p("C10", "Concatenation and merging keep every value of every input, in order",
  "Concatenating arrays (any axis, any number, equal or different types, through numeric promotion, options or unions) yields the inputs' elements one after the other, list by list, with every value equal to the original and every missing value kept. Merging never loses, duplicates, reorders or reinterprets data.",
  ["inputs"], "over sequences of arrays of any types in " + LAY,
  "The merge matrix (dtype x dtype, node class x node class) is sampled sparsely by tests.",
  ["src/awkward/operations/structure.py", ARR, "src/cpu-kernels/*fill*.cpp", "src/cpu-kernels/*simplify*.cpp"],
  [("mergemany", ARR), ("UnionArray::simplify_uniontype", "src/libawkward/array/UnionArray.cpp")])

p("C11", "ArrayBuilder reproduces exactly the data appended to it",
  "For every well-formed sequence of fill commands (nested lists, records, tuples, strings, numbers, nulls, mixed types, appended elements of other arrays), a snapshot equals the data appended so far, whatever the initial size and growth factor. Snapshots already taken never change when filling continues, clear starts afresh, and ill-formed sequences raise exceptions without corrupting the builder.",
  ["histories", "inputs"], "over command histories of any length with snapshots interleaved anywhere, and all builder options",
  "Growth, type promotion (unknown -> option -> union) and record-field discovery depend on the whole history; tests replay a few fixed ones.",
  ["src/libawkward/builder/*.cpp", "include/awkward/builder/*.h", "src/awkward/highlevel.py", "src/python/content.cpp", "src/awkward/operations/convert.py"],
  [("Builder state machine", "src/libawkward/builder/*.cpp"), ("GrowableBuffer", "src/libawkward/builder/GrowableBuffer.cpp")])

p("C12", "JSON is read and written faithfully",
  "from_json yields the data the JSON document denotes (nesting, strings, numbers, null, and requested NaN/infinity/complex encodings), independent of input source and read-buffer size, and malformed or truncated JSON raises an exception. to_json emits valid JSON denoting the array's values, so that reading it back gives the same data, for every layout and output option.",
  ["inputs", "configurations"], "over JSON documents, byte-level corruptions of them, buffer sizes, and arrays in " + LAY,
  "Tests parse a few literals with default buffer sizes.",
  ["src/libawkward/io/json.cpp", "src/python/io.cpp", "src/awkward/operations/convert.py", ARR],
  [("rapidjson SAX handler feeding an ArrayBuilder", "src/libawkward/io/json.cpp"), ("tojson_part", ARR)])

p("C13", "Buffers, pickles and copies round-trip",
  "to_buffers followed by from_buffers, pickling followed by unpickling, and copying yield an array with equal values and type for every array, including partitioned and lazy ones. Reconstructing from missing or too-short buffers raises an exception and never reads beyond them, and a deep copy shares no memory with the original.",
  ["inputs", "configurations"], "over " + LAY + ", key formats, lazy and eager reconstruction, truncated buffers",
  "Tests round-trip a fixed list of layouts.",
  ["src/awkward/operations/convert.py", "src/awkward/highlevel.py", "src/libawkward/array/*.cpp", "src/python/forms.cpp"],
  [("to_buffers/from_buffers", "src/awkward/operations/convert.py")])

p("C14", "Arrow and Parquet conversions preserve the data",
  "Converting an array to Arrow and back, or writing it to Parquet and reading it back (whole, by columns or by row groups), yields equal values and equal missing positions for every representable array, whatever its layout or partitioning. Arrow arrays produced by Arrow itself, including sliced, chunked, null-carrying and dictionary-encoded ones, are read with the same values Arrow reports.",
  ["inputs", "configurations"], "over " + LAY + " of Arrow-representable types, and over Arrow arrays of those types with offsets and validity bitmaps",
  "Offsets into bitmaps, non-zero starts and sliced children depend on the layout; tests use few.",
  ["src/awkward/operations/convert.py"], [("to_arrow/from_arrow/to_parquet/from_parquet", "src/awkward/operations/convert.py")])

p("C15", "NumPy and pandas conversions are exact",
  "Converting rectangular data between NumPy arrays (any supported dtype, shape, strides, mask or structured fields) and this library's arrays gives element-for-element equal data with the same dtype and shape, and non-rectangular data raises. to_pandas lists every scalar exactly once under the index of its position in the nested lists.",
  ["inputs"], "over NumPy arrays of every supported dtype, rank and stride pattern and over " + LAY,
  "Stride, mask and structure combinations are sampled only lightly by tests.",
  ["src/awkward/operations/convert.py", "src/libawkward/array/NumpyArray.cpp", "src/libawkward/array/RegularArray.cpp", "src/python/content.cpp", "src/awkward/highlevel.py"],
  [("from_numpy/to_numpy/to_pandas", "src/awkward/operations/convert.py")])

p("C16", "Lazy arrays behave as the arrays they generate, whatever the cache does",
  "An array with lazily generated parts gives the same results as the fully materialised one for every operation, whether its cache keeps, evicts or never stores entries. While its cache keeps the entry a generator runs at most once, an operation that only needs the known form or length does not run it, and a generated array that contradicts the declared form or length raises an exception.",
  ["histories", "configurations", "inputs"], "over arrays with lazy nodes at any depth, cache policies, operation sequences, and generators that disagree with their declarations",
  "Tests use plain dict caches and short fixed sequences.",
  ["src/libawkward/array/VirtualArray.cpp", "src/libawkward/virtual/*.cpp", "src/python/virtual.cpp", "src/awkward/operations/structure.py", "src/awkward/highlevel.py"],
  [("ArrayGenerator::generate_and_check", "src/libawkward/virtual/ArrayGenerator.cpp"), ("ArrayCache", "src/libawkward/virtual/ArrayCache.cpp")])

p("C17", "Partitioned arrays behave as their concatenation",
  "Every operation on an array held in partitions, wherever the boundaries lie (including empty partitions), gives the same result as on the single-partition array with the same elements; repartitioning never changes the data and yields exactly the requested lengths.",
  ["inputs", "configurations"], "over arrays, partition boundaries and operations",
  "Tests use one or two partitionings.",
  ["src/awkward/partition.py", "src/libawkward/partition/*.cpp", "src/python/partition.cpp", "src/awkward/_util.py", "src/awkward/operations/*.py"],
  [("IrregularlyPartitionedArray", "src/libawkward/partition/IrregularlyPartitionedArray.cpp"), ("partition-wise apply", "src/awkward/partition.py")])

p("C18", "Compiled (Numba) code sees and builds the same data as Python",
  "A Numba-compiled function that takes arrays or records, indexes, slices, iterates, reads fields or missing values, or fills a builder gets and produces the same data as the same function run in Python, for every layout, and out-of-range indexes raise. Passing arrays in and out of compiled code neither leaks nor prematurely frees them.",
  ["inputs", "programs"], "over " + LAY + " supported in compiled code, and access patterns",
  "Lowered code is generated per layout type; tests compile few types and check few values.",
  ["src/awkward/_connect/_numba/*.py", "src/libawkward/builder/ArrayBuilder.cpp", "src/awkward/_libawkward.py"],
  [("ArrayView lookup/lowering", "src/awkward/_connect/_numba/")])

p("C19", "The Forth virtual machine computes exactly what its language defines",
  "Every program that compiles computes the stack, variables, input positions and outputs that the language's words define (arithmetic, comparison, stack manipulation, control flow, parsing words for every format and byte order, output type conversion), and stops with the documented error for stack, bounds, division, recursion and halt conditions. Pausing, stepping and resuming at any point gives the same final state as running straight through, and a program that does not compile raises without executing.",
  ["programs", "inputs", "histories"], "over source programs, input bytes, stack and recursion limits, 32- and 64-bit machines and pause points",
  "Tests run each word on one or two operand values.",
  ["src/libawkward/forth/*.cpp", "include/awkward/forth/*.h", "src/python/forth.cpp"],
  [("ForthMachineOf::internal_run", "src/libawkward/forth/ForthMachine.cpp"), ("ForthOutputBufferOf::write_*", "src/libawkward/forth/ForthOutputBuffer.cpp")],
  state=[("stack, variables, instruction pointer", "machine state", "include/awkward/forth/ForthMachine.h")])

p("C20", "The Forth virtual machine is safe for any program, input and thread schedule",
  "No source text, input bytes, stack depth, pause or call sequence makes the virtual machine read or write outside its stack, inputs or outputs; it ends in a normal or error state. Machines used by different threads at once give the same results as when each is used alone, without data races.",
  ["programs", "inputs", "schedules"], "over arbitrary token sequences, inputs and concurrent executions with the interpreter lock released",
  "Tests run well-behaved programs on one thread, uninstrumented.",
  ["src/libawkward/forth/*.cpp", "include/awkward/forth/*.h", "src/python/forth.cpp"],
  [("bounds checks in stack_*/read_*", "include/awkward/forth/ForthMachine.h"), ("gil_scoped_release", "src/python/forth.cpp")])

p("C21", "Types, forms and lengths describe the data truthfully and round-trip",
  "The type, form, fields, depth and length reported for an array agree with its data and with each other for every layout, including results of operations. Printing a type or form and parsing it back yields an equal one, and equality of types distinguishes exactly the types that differ.",
  ["inputs"], "over " + LAY + " with parameters at any node, and over types and forms themselves",
  "Tests list particular types.",
  ["src/libawkward/type/*.cpp", ARR, "src/python/types.cpp", "src/python/forms.cpp", "src/awkward/_typeparser/*.py"],
  [("Form::fromjson/tojson, Type::tostring, from_datashape", "src/libawkward/, src/awkward/_typeparser/")])

p("C22", "Operations never modify their inputs, and views keep data alive",
  "No operation changes the values of any array passed to it or of any array sharing memory with it, except explicit field assignment on the very object assigned to. A result stays valid and unchanged after the arrays it was made from are deleted, and repeating operations does not leak arrays or buffers.",
  ["histories", "inputs"], "over operation sequences and deletion orders on " + LAY,
  "Tests check results, not that inputs are unchanged, and rarely drop the sources first.",
  ["src/libawkward/array/*.cpp", "src/python/content.cpp", "src/awkward/highlevel.py", "include/awkward/kernel-dispatch.h"],
  [("shared_ptr ownership; pyobject_deleter", "src/python/content.cpp, include/awkward/python/util.h")])

p("C23", "Validity checks separate valid from invalid arrays, and results are valid",
  "is_valid and validity_error accept every well-formed array and reject every array whose offsets, starts/stops, indexes, tags, masks or content lengths break the layout rules, naming an error rather than crashing. The result of any operation on valid arrays is itself valid.",
  ["inputs"], "over " + LAY + " and single-rule mutations of them, at any depth",
  "Tests contain a handful of invalid arrays, mostly at top level.",
  [ARR, "src/cpu-kernels/*validity*.cpp", "src/awkward/operations/describe.py"],
  [("validityerror", ARR)])

p("C24", "Every low-level kernel computes what its published specification says",
  "For every kernel and specialisation in the kernel specification, calling the compiled function on inputs allowed by its signature writes exactly the outputs, and reports success or failure exactly as, the reference definition does. It writes nothing beyond those outputs.",
  ["inputs"], "over kernels, specialisations (all integer and floating types) and input buffers",
  "Generated tests use about five fixed small inputs per specialisation, with the same few values.",
  ["src/cpu-kernels/*.cpp", "kernel-specification.yml", "include/awkward/kernels.h"],
  [("extern C kernels", "src/cpu-kernels/")])

p("C25", "Strings and categorical values behave as single values",
  "Strings and bytestrings are kept byte for byte through construction, slicing, comparison, sorting, concatenation and conversion, and two strings compare equal exactly when all their bytes are equal. Categorical encoding and decoding never change any value.",
  ["inputs"], "over strings of any length including empty, multi-byte and shared prefixes, in " + LAY,
  "Tests use a few short ASCII words.",
  ["src/awkward/behaviors/string.py", "src/awkward/behaviors/categorical.py", "src/cpu-kernels/*string*.cpp", "src/cpu-kernels/awkward_NumpyArray_subrange_equal.cpp"],
  [("string behaviors over ListArray of uint8", "src/awkward/behaviors/string.py")])

p("C26", "LayoutBuilder produces exactly the data filled into its declared form",
  "For every supported form and every well-formed sequence of fill commands, the built array has exactly that form's type and exactly the values filled, for any initial size and growth, and snapshots may be taken in between. Commands that contradict the form raise an exception.",
  ["histories", "inputs"], "over forms (numbers, lists, regular lists, records, options, unions, strings, categorical) and command histories",
  "Tests fill a few literals per node class.",
  ["src/libawkward/layoutbuilder/*.cpp", "include/awkward/layoutbuilder/*.h", "src/libawkward/forth/*.cpp", "src/python/content.cpp"],
  [("generated Forth program per form", "src/libawkward/layoutbuilder/LayoutBuilder.cpp")])

p("C27", "Record fields, names and behaviours are attached to the right data",
  "Projecting, adding, replacing, zipping and unzipping fields give each field exactly its own data at every record and leave all other fields unchanged, for records nested at any depth. Record names and other parameters stay attached through slicing and restructuring, so that user-defined classes and overloads apply to exactly the data they were declared for.",
  ["inputs"], "over " + LAY + " containing records, field paths and registered behaviours",
  "Tests use records at one or two positions with simple layouts.",
  ["src/libawkward/array/RecordArray.cpp", "src/awkward/operations/structure.py", "src/awkward/_util.py", "src/awkward/highlevel.py", "src/awkward/behaviors/mixins.py"],
  [("with_field, setitem_field, arrayclass lookup", "src/awkward/operations/structure.py, src/awkward/_util.py")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
