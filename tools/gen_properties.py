#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
I="include/sparrow/"
p("C01","Buffers behave as value-semantic sequences",
 "After any sequence of operations (construction, insertion, erasure, resizing, assignment, copy, move, swap), a buffer, typed byte buffer or buffer adaptor holds exactly the elements a mathematical sequence subjected to the same operations would hold, in the same order, and returned iterators designate the documented position. Passing a value held by the buffer itself as an argument is as good as passing a copy of it. Copies never share elements with their source.",
 ["histories","inputs"],"every sequence of buffer operations, positions and values, every capacity the history produced",
 "The tests run each operation once on one six-element buffer; reallocation, self-aliasing, empty ranges and the combination of operations are samples.",
 [I+"buffer/buffer.hpp",I+"buffer/u8_buffer.hpp",I+"buffer/buffer_adaptor.hpp",I+"buffer/buffer_view.hpp",I+"buffer/allocator.hpp"],
 [("reserve_with_growth_factor / insert_impl / resize_impl",I+"buffer/buffer.hpp"),("element_count rescaling",I+"buffer/buffer_adaptor.hpp")],
 ["size(), operator[], data(), begin()/end(), front()/back(), operator==, returned iterators"],
 [("p_begin/p_end/p_storage_end","elements and capacity",I+"buffer/buffer.hpp")])
p("C02","A bitset is a sequence of bits with an exact null count",
 "After any sequence of operations a bitset holds exactly the bits a sequence of booleans subjected to the same operations would hold, whatever its block type and its length relative to the block size. Its null count is always the number of false bits, and all access paths (indexing, checked access, iterators in both directions, front and back) agree.",
 ["histories","inputs"],"every sequence of construct/set/insert/erase/resize/push/pop/clear/copy/move/swap over every length and block width",
 "Tests use one 13-bit pattern and check single operations; boundaries (lengths that are multiples of the block width, ranges that span blocks) and histories are not covered.",
 [I+"buffer/dynamic_bitset/dynamic_bitset_base.hpp",I+"buffer/dynamic_bitset/dynamic_bitset.hpp",I+"buffer/dynamic_bitset/bitset_iterator.hpp",I+"buffer/dynamic_bitset/bitset_reference.hpp"],
 [("null count maintained incrementally: update_null_count",I+"buffer/dynamic_bitset/dynamic_bitset_base.hpp"),("zero_unused_bits",I+"buffer/dynamic_bitset/dynamic_bitset_base.hpp")],
 ["size, null_count, test, at, operator[], begin..end, front, back"],
 [("m_size, m_null_count, m_buffer","logical size, number of unset bits, blocks",I+"buffer/dynamic_bitset/dynamic_bitset_base.hpp")])
p("C03","Views and readers never write into memory they do not own",
 "Creating, copying, reading, slicing, comparing, exporting or destroying views (buffer views, bitset views, arrays and slices over non-owned C structures) changes no bit of the memory they refer to nor of the C structures. Setting one bit or one element through a mutable view changes exactly that bit or element and nothing else.",
 ["histories","inputs"],"every memory content, view size, bit position and sequence of view operations",
 "Tests look at the values read through a view, never at the bytes around it.",
 [I+"buffer/dynamic_bitset/dynamic_bitset_view.hpp",I+"buffer/dynamic_bitset/non_owning_dynamic_bitset.hpp",I+"buffer/buffer_view.hpp",I+"layout/array_bitmap_base.hpp","src/arrow_array_schema_proxy.cpp","src/array.cpp"],
 [("views over buffers exposed by arrow_proxy",I+"arrow_array_schema_proxy.hpp")],
 ["the bytes of the memory handed to the view; the fields of the handed ArrowArray/ArrowSchema"])
p("C04","Mutating a fixed-width array is mutating a sequence of nullable values",
 "For arrays of fixed-width non-boolean values, any sequence of element assignments, insertions, erasures, appends, removals and resizes yields exactly the sequence of values and nulls that the same operations yield on an ordinary sequence of optional values. This holds for any length, for arrays that are slices, and right after each structural operation the length and null count recorded in the C structure are those of the sequence.",
 ["histories","inputs"],"every initial array (length, null pattern, offset) and every sequence of mutations",
 "Tests mutate one ten-element array without offset, one operation at a time; the mutation test file is not even part of the stable build.",
 [I+"layout/mutable_array_base.hpp",I+"layout/array_bitmap_base.hpp",I+"layout/primitive_array.hpp","src/arrow_array_schema_proxy.cpp"],
 [("values, bitmap, length and null count updated in lock step",I+"layout/mutable_array_base.hpp")],
 ["operator[], iteration, size(), exported ArrowArray length/offset/null_count"])
p("C05","Mutating a string array is mutating a sequence of nullable strings",
 "For variable-size string arrays, any sequence of element assignments (shorter, longer, empty), insertions, erasures, appends, removals and resizes yields exactly the sequence of strings and nulls that the same operations yield on an ordinary sequence of optional strings. This includes arrays that are slices; no other element ever changes and the exported offsets stay consistent with the data.",
 ["histories","inputs"],"every initial array and every sequence of mutations with strings of any length",
 "The test file for these arrays is not part of the stable build, and it samples one pattern per operation.",
 [I+"layout/variable_size_binary_layout/variable_size_binary_array.hpp",I+"layout/variable_size_binary_layout/variable_size_binary_reference.hpp",I+"layout/mutable_array_base.hpp"],
 [("offset shifting: insert_offset(s), erase_offsets, assign",I+"layout/variable_size_binary_layout/variable_size_binary_array.hpp")],
 ["operator[], iteration, size(), decoded exported buffers"])
p("C06","Slicing selects exactly the requested elements, for every layout",
 "For every supported layout, taking the slice [start, end) of an array, as an owning copy or as a view, gives an array whose elements are exactly the elements start..end-1 of the original, with the right length and null count. Slices of slices compose, and neither taking nor dropping a slice changes the original.",
 ["inputs","histories"],"every layout (including nested, union, dictionary, run-end encoded), content, null pattern and chain of slice bounds",
 "Tests slice a primitive array once; no nested layout is ever sliced.",
 [I+"layout/array_base.hpp","src/arrow_array_schema_proxy.cpp","src/array.cpp",I+"layout/list_layout/list_array.hpp",I+"layout/struct_layout/struct_array.hpp",I+"layout/union_array.hpp",I+"layout/run_end_encoded_layout/run_end_encoded_array.hpp",I+"layout/dictionary_encoded_array.hpp",I+"layout/variable_size_binary_view_array.hpp",I+"layout/null_array.hpp"],
 [("offset/length rewriting of the proxy: slice, slice_view","src/arrow_array_schema_proxy.cpp"),("offset applied by each layout","include/sparrow/layout/")],
 ["operator[], iteration, size() of the slice and of the original; exported offset, length, null_count"])
p("C07","Every C structure is released exactly once and nothing leaks",
 "Whatever the history of imports, copies, moves, assignments, swaps, slices, extractions, exports and destructions, a C data structure whose ownership was given to the library is released exactly once, when its last owner goes away or never if ownership was extracted; a structure that was only lent is never released. Structures produced by the library release everything they own (buffers, names, children, dictionary) exactly once when their release callback runs, and no memory is left over.",
 ["histories"],"every sequence of ownership-transferring operations over several arrays, slices and record batches",
 "Tests check single import/destroy pairs; double release and leaks appear on combinations (move then extract, assign over owner, slice of view).",
 [I+"arrow_array_schema_proxy.hpp","src/arrow_array_schema_proxy.cpp","src/arrow_interface/arrow_array.cpp","src/arrow_interface/arrow_schema.cpp",I+"arrow_interface/arrow_array_schema_utils.hpp",I+"c_interface.hpp",I+"array.hpp","src/array.cpp"],
 [("variant of value/pointer ownership and release in the proxy destructor",I+"arrow_array_schema_proxy.hpp"),("private data deleted by release callbacks","src/arrow_interface/arrow_array.cpp")],
 ["calls of the release callbacks of third-party structures; live allocations"],
 [("m_array/m_schema","owned by value or pointed to",I+"arrow_array_schema_proxy.hpp")])
p("C08","Exported C structures are well formed and mean the array's content",
 "For every array the library can build, the exported ArrowArray and ArrowSchema satisfy the Arrow C data interface (format string, buffer count, child count, lengths, offsets, null count, required buffers large enough) and decoding them by the Arrow columnar specification gives exactly the elements the library reports. This holds at every nesting level, and after copies and slices.",
 ["inputs"],"every constructible array over all layouts, element types, lengths, null patterns and nestings",
 "Tests compare a few exported fields with the values the same code wrote; no independent decoder exists.",
 [I+"layout/primitive_array.hpp",I+"layout/variable_size_binary_layout/variable_size_binary_array.hpp",I+"layout/list_layout/list_array.hpp",I+"layout/struct_layout/struct_array.hpp",I+"layout/union_array.hpp",I+"layout/dictionary_encoded_array.hpp",I+"layout/run_end_encoded_layout/run_end_encoded_array.hpp",I+"types/data_type.hpp",I+"c_interface.hpp","src/array.cpp"],
 [("create_proxy of each layout","include/sparrow/layout/"),("format strings",I+"types/data_type.hpp")],
 ["raw fields and buffers of get_arrow_array/get_arrow_schema/extract"])
p("C09","Conformant C structures are read as the Arrow specification says",
 "Any ArrowArray/ArrowSchema pair that conforms to the Arrow C data interface and whose types the library supports, produced by anyone, is read as exactly the logical elements the Arrow columnar specification assigns to it. This includes non-zero offsets at any nesting level, absent validity buffers, unknown null counts, arbitrary bits in unused positions, list views in any order, and dictionaries with nulls.",
 ["inputs"],"every conformant C structure over the supported formats",
 "The test factory produces one shape per layout, with its own conventions; conformant variants (absent bitmap, child offsets, hidden values) are never imported.",
 ["src/array_factory.cpp",I+"types/data_type.hpp","src/arrow_interface/arrow_array.cpp","src/arrow_array_schema_proxy.cpp",I+"layout/array_bitmap_base.hpp",I+"layout/list_layout/list_array.hpp",I+"layout/struct_layout/struct_array.hpp",I+"layout/union_array.hpp",I+"layout/dictionary_encoded_array.hpp",I+"layout/run_end_encoded_layout/run_end_encoded_array.hpp"],
 [("format parsing and dispatch","src/array_factory.cpp"),("buffer extents: get_arrow_array_buffers","src/arrow_interface/arrow_array.cpp")],
 ["operator[], iteration and size() of the imported array"])
p("C10","Copies are deep and independent; moves transfer the content",
 "Copying an array (typed or untyped, any layout, owned or not, sliced or not) gives an array with the same elements whose later life is independent: mutating, moving or destroying either never affects the other. Moving gives the destination the exact content of the source, and the destination stays valid after the source is destroyed.",
 ["histories","inputs"],"every layout and content, and every interleaving of copy, move, assign, swap, mutate and destroy over several arrays",
 "Tests copy once and compare; they do not mutate or destroy the source afterwards.",
 ["src/array.cpp",I+"layout/array_base.hpp",I+"layout/array_wrapper.hpp","src/arrow_array_schema_proxy.cpp",I+"layout/list_layout/list_array.hpp",I+"layout/dictionary_encoded_array.hpp",I+"layout/run_end_encoded_layout/run_end_encoded_array.hpp",I+"layout/union_array.hpp"],
 [("deep copy of C structures: copy_array/copy_schema, views rebuilt after copy","src/arrow_interface/arrow_array.cpp")],
 ["elements of every live array after each step"])
p("C11","The builder is lossless",
 "Building an array from any nested combination of ranges, tuples, fixed-size arrays, variants and nullable values gives an array of the documented layout whose elements are exactly the given values, nulls included, at every nesting level. Requesting dictionary or run-end encoding, or large lists, changes the layout but never the elements; a dictionary holds each distinct value once, and no two neighbouring runs hold equal values.",
 ["inputs"],"every input value of every supported nested type, including empty ranges and nulls that hide a payload",
 "Tests build one hand-written value per type.",
 [I+"builder/builder.hpp",I+"builder/builder_utils.hpp",I+"builder/nested_eq.hpp",I+"builder/nested_less.hpp","src/run_encoded_array.cpp"],
 [("flattening, sizes and null positions per layout",I+"builder/builder.hpp"),("value ordering and run comparison",I+"builder/nested_less.hpp")],
 ["elements, layout and exported structure of the built array"])
p("C12","A record batch is a consistent mapping from unique names to columns",
 "A record batch built from names and equally long columns reports exactly those names and columns, in order, and lookup by name gives the column at the same position; unknown names are reported as absent. This remains true for copies and moved-to batches after the source changed or died, and building from lvalues leaves the given ranges as they were.",
 ["histories","inputs"],"every set of names and columns and every sequence of copy, move, assign, swap, lookup and destroy",
 "Tests use one three-column batch and never look up in a copy whose source died.",
 [I+"record_batch.hpp","src/record_batch.cpp"],
 [("name to column pointer map rebuilt on copy: init_array_map","src/record_batch.cpp")],
 ["nb_columns, nb_rows, names, columns, get_column, contains_column, operator=="],
 [("m_array_map","pointers into the column list",I+"record_batch.hpp")])
p("C13","Array equality is equality of logical content",
 "Two arrays of the same layout compare equal exactly when they have the same length and, position by position, are both null or both hold equal values, whatever their offset, buffers, hidden values or history. Equality is reflexive, symmetric and consistent with inequality, and arrays of different layouts (another kind of layout, fixed-width values or dictionary keys of another type, list offsets of another width) never compare equal. Left open: a null of one alternative of a union against a null of another one.",
 ["inputs"],"every pair of arrays over all layouts, physical representations and contents",
 "Tests compare an array with its copy and with one different array.",
 ["src/array.cpp",I+"layout/array_base.hpp",I+"layout/dispatch.hpp","src/list_value.cpp","src/struct_value.cpp",I+"layout/nested_value_types.hpp",I+"utils/nullable.hpp"],
 [("visit on both operands and ranges::equal","src/array.cpp")],
 ["operator==, operator!="])
p("C14","Nullable values have optional semantics",
 "A nullable (owning or referring to other objects) behaves as an optional value under every sequence of construction, assignment, reset, swap and comparison: it has a value exactly when the last operation gave it one, reading that value gives what was last stored, and asking for the value of a null fails with the dedicated exception. Comparison is a total order consistent with equality in which null equals null and is below every value; assigning through a referring nullable changes the referred objects.",
 ["histories","inputs"],"every sequence of operations on several nullables, owning and referring, and every pair compared",
 "Tests sample one assignment of each kind and a handful of comparisons.",
 [I+"utils/nullable.hpp",I+"utils/variant_visitor.hpp"],
 [("value and flag stored side by side",I+"utils/nullable.hpp")],
 ["has_value, bool conversion, value, get, value_or, comparison operators, swap, nullable_variant"])
p("C15","All access paths of an array agree",
 "For every layout, indexing, forward and backward iteration, random-access jumps, constant and mutable access, validity and value ranges, first and last element and visitation all report the same elements in the same order. Iterators behave as positions: distances, comparisons and arithmetic agree with integer arithmetic on indices.",
 ["inputs","histories"],"every array over all layouts and every walk of an iterator",
 "Tests walk forward once over one array per layout.",
 [I+"layout/array_base.hpp",I+"layout/layout_iterator.hpp",I+"layout/layout_utils.hpp",I+"utils/functor_index_iterator.hpp",I+"utils/iterator.hpp",I+"layout/run_end_encoded_layout/run_end_encoded_iterator.hpp",I+"layout/null_array.hpp",I+"buffer/dynamic_bitset/bitset_iterator.hpp","src/list_value.cpp","src/struct_value.cpp"],
 [("iterator_base CRTP over advance/distance/equal",I+"utils/iterator.hpp")],
 ["operator[], begin/end, cbegin/cend, values(), bitmap(), front/back, visit"])
p("C16","Rejected operations report an error and change nothing",
 "Operations documented to fail with an exception (checked access out of range, structural modification or extraction of data the library does not own, unknown column, value of a null, invalid or unsupported format, invalid sizes) throw the documented kind of exception on every invalid input. Afterwards every object involved is as it was before, and ownership did not move.",
 ["inputs","histories"],"every invalid argument in every reachable state of the objects",
 "Tests check one throwing call per operation and rarely look at the state afterwards.",
 ["src/arrow_array_schema_proxy.cpp",I+"arrow_array_schema_proxy.hpp",I+"buffer/dynamic_bitset/dynamic_bitset_base.hpp",I+"buffer/buffer.hpp","src/record_batch.cpp","src/array.cpp",I+"utils/nullable.hpp","src/array_factory.cpp",I+"layout/union_array.hpp","src/run_encoded_array.cpp"],
 [("checks before mutation","src/arrow_array_schema_proxy.cpp")],
 ["the exception type; every observer of the object after the failed call"])
p("C17","Owning pointers keep value semantics",
 "The value-semantic and cloning smart pointers own their pointee: copies are deep (polymorphic for the cloning one), moves and swaps transfer it leaving the source empty, releasing gives it up, resetting destroys the old one, and each pointee is destroyed exactly once. Comparisons, conversions and emptiness tests always reflect the current pointee.",
 ["histories"],"every sequence of construct, copy, move, assign (including to itself and null), reset, release, swap, convert and destroy over several pointers",
 "Tests run each member function once.",
 [I+"utils/memory.hpp"],
 [("unique_ptr plus clone on copy",I+"utils/memory.hpp")],
 ["get, has_value, operator*, bool conversion, comparisons, construction/destruction of pointees"])
p("C18","The C-structure proxy is a faithful editable tree",
 "Through the proxy of an ArrowArray/ArrowSchema pair, name, metadata, flags, format, length, offset, null count, children and dictionary read back exactly what was last set, and the exported C structures always agree with the proxy at every level of the tree. Adding, replacing and removing children or the dictionary affects only that part of the tree, and removed or replaced parts are released exactly once.",
 ["histories","inputs"],"every sequence of setter, child and dictionary operations on owned proxies, with moved, copied or lent sub-trees",
 "Tests call each setter once on one fixed structure.",
 [I+"arrow_array_schema_proxy.hpp","src/arrow_array_schema_proxy.cpp","src/arrow_interface/arrow_array.cpp","src/arrow_interface/arrow_schema.cpp",I+"arrow_interface/arrow_flag_utils.hpp"],
 [("private data mirrors: children_ownership, buffers, names","src/arrow_array_schema_proxy.cpp")],
 ["proxy getters; raw fields of the exported ArrowArray/ArrowSchema; release callbacks"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        for fl in x["anchors"]["files"]:
            assert os.path.exists("/repo/"+fl),fl
        f.write(json.dumps(x)+"\n")
print(len(P),"properties")
