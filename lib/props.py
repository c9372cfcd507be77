"""Single source of properties.jsonl and MANIFEST.json (tool/manifest.py writes them)."""

P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, level="proof", note="", na=None, thorough=True, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, level=level, note=note, na=na, thorough=thorough, observe=list(observe)))


ABS = "abstract interpretation (disjunctive polyhedra) of obligations over the compiler's IR"

prop("C01", "A dynamic variant only ever yields the alternative it really holds",
     "Asking a dynamic variant for an alternative yields the held object itself when that alternative is the one held, and is refused (null from the pointer form, an exception from the reference form) in every other case, including an empty variant and a null variant pointer. "
     "Visiting calls the handler of the held alternative exactly once, with that same object, and hands its result back; visiting an empty variant throws and calls no handler. "
     "A variant built from an index holds the alternative with that index and an index without an alternative is refused.",
     ["inputs"], "every object, every held alternative, every requested alternative and every index",
     "The tests construct a handful of variants; which alternative is held, its address and the index are unbounded inputs.",
     ["src/hstd/stdlib/DynVariant.hpp"],
     [("kind comparison before the downcast", "get_if, get, holds_alternative"), ("handler table indexed by kind", "dyn_visit"), ("factory table", "from_index")],
     ABS, "proof",
     "Every obligation is shown for all inputs over a four-alternative and a three-alternative instance; trusts clang's optimiser, lib/irabs.py and that instances behave like the template.")

prop("C02", "Enumerated iteration reports positions and neighbours truthfully",
     "Iterating a sequence through the enumerator, with any number of elements skipped at the start and at the end, visits exactly the elements that remain, in order, and every item reports its own index, its index in the whole sequence, the number of visited items and whether it is the first or the last of them. "
     "Asking an item for a neighbour at a distance yields that neighbour when it is one of the visited items and throws otherwise, so no element outside of the visited part is ever read.",
     ["inputs"], "every sequence length, every pair of skip counts (negative and too large ones included), every position and every distance",
     "Tests fix a few lengths, skips and distances; off-by-one errors show only at particular combinations of length, skips and offset.",
     ["src/hstd/stdlib/Enumerate.hpp"],
     [("clamped skip counts", "enumerator_impl::skip_first_count, skip_last_count"), ("range check of the offset", "item::check_offset")],
     ABS, "proof",
     "All lengths below 2^30, all skip counts, all positions, all distances within 2^30; iterator arithmetic is modelled by an integer iterator. Trusts clang and lib/irabs.py.")

prop("C03", "A scope guard runs its action exactly once, and callables do what they wrap",
     "The action of a scope guard runs exactly once, when the scope is left, on every way of leaving it: falling off the end, returning early or an exception passing through; it never runs earlier, and a guard cannot be duplicated. "
     "A callable made from a field, a getter or a predicate returns the value of that very member, and the exception probe answers whether the probed action completed, without letting an exception out.",
     ["inputs", "fault_sequences"], "every way of leaving the scope, including an exception at any call in it, and every object and value",
     "Tests do not raise an exception at each call in a guarded scope and cannot enumerate objects.",
     ["src/hstd/stdlib/Func.hpp"],
     [("destructor calls the action", "finally::~finally"), ("deleted copy operations", "finally"), ("catch-all in the probe", "no_exception")],
     ABS, "proof", "Exceptional edges are part of the analysed control flow. Trusts clang and lib/irabs.py.")

prop("C04", "Casting or cloning an owned object never loses or double-frees it",
     "A checked downcast of a uniquely owned object moves ownership to the result when the object has the requested type and otherwise leaves the object with its original owner and yields nothing; in both cases the object is destroyed exactly once, by the deleter it came with. "
     "Shared-object helpers construct from their arguments, hand out handles to the very object they are called on (as does a mixin base), and clone into an independent object that is equal and has one owner.",
     ["inputs"], "every object, every outcome of the type test, every deleter state",
     "Leaks and double frees depend on the outcome of the dynamic type test and on the deleter, which tests sample once or twice at most.",
     ["src/hstd/stdlib/Ptrs.hpp"],
     [("release only after a successful cast", "dynamic_pointer_cast"), ("make_shared wrappers", "SharedPtrApi")],
     ABS, "proof", "The outcome of the run-time type test is an arbitrary but consistent oracle. Trusts clang and lib/irabs.py.")

prop("C05", "Mask and address-range helpers act on exactly the bits and elements they name",
     "Assigning under a mask changes exactly the masked bits, clearing clears exactly them, comparing looks at exactly them, and a field stored in the top bits of a word is read back unchanged. "
     "An address is reported inside a block exactly when it is the address of one of its elements, never for null, and distances count elements.",
     ["inputs"], "every word, mask and value of every unsigned width, every block and address",
     "The bit patterns are 2^(3*64) inputs; the address comparison is about block boundaries.",
     ["src/hstd/system/bit_utils.hpp", "src/hstd/system/ptr_utils.hpp"],
     [("and/or of mask and complement", "assign_masked, without_masked_bits, masked_equals, masked_bits_right"), ("half-open range test", "is_within_memory_block")],
     ABS, "proof", "Bitwise functions are compared by truth table per bit position, exactly; all four unsigned widths. Trusts clang and lib/irabs.py.")

prop("C12", "Calls through the C interface report errors and keep ownership straight",
     "A call through the C interface reaches the object its handle refers to, whichever way the handle owns it, with the arguments in order and enumerations by number. "
     "No C++ exception leaves the call: the context of the call says whether it failed and carries a message, a null handle or object is such a failure, and a successful call leaves no error of an earlier one. "
     "What a call or field getter returns by value is owned by its handle and destroyed exactly once, what is returned by reference or pointer is borrowed and survives the destruction of the handle, shared objects stay alive as long as one handle does, and each handle carries the function table of its own type.",
     ["all_inputs", "error_paths"], "every kind of result, argument and ownership the marshalling layer distinguishes, with arbitrary values and with a callee that may throw",
     "The 2300 C functions all go through this layer; nothing in the repository's tests calls it, and ownership mistakes only show as leaks or double frees in a client.",
     ["src/wrappers/c/haxorg_c_utils.hpp", "src/wrappers/c/haxorg_c.h"],
     [("calls", "execute_cpp, execute_cpp_impl, get_cpp_field"), ("ownership", "tag_pointer, untag_pointer, get_pointer_policy, execute_destroy"), ("errors", "OrgContext, set_context_error, clear_context")],
     ABS, "proof",
     "Analysed over stand-ins for the document headers, because the marshalling layer only uses their id, box and enumeration templates. Calls without a result are left out: the layer does not compile for them with the installed clang.")
prop("C13", "Slices, spans and vectors address exactly the elements they name",
     "A slice contains exactly the values from its first to its last bound; its overlap, narrowing, expansion and hull are those of the ranges, and iterating it yields every value once, in order, even when it covers a whole type. Reversed bounds are rejected. "
     "A slice of a container, with bounds counted from either end, selects exactly the named elements and is rejected when a bound lies outside or the end is before the start. Checked access to vectors, spans and arrays yields the element at the index, counted from either end, and fails for every index outside; optional access yields nothing there. "
     "Search, append, concatenation, insertion, resizing, removal, equality and lexicographic order keep the elements and their order.",
     ["all_inputs", "error_paths"], "every index, bound and container size for slices and spans; every element value and index for vectors and arrays of up to four elements",
     "Off-by-one mistakes show only at one end of a range, for an empty or full selection, or for an index counted from the back.",
     ["src/hstd/stdlib/Slice.hpp", "src/hstd/stdlib/Span.hpp", "src/hstd/stdlib/Vec.hpp", "src/hstd/stdlib/Array.hpp", "src/hstd/stdlib/BackwardsIndex.hpp", "src/hstd/stdlib/sequtils.hpp"],
     [("slices", "Slice, HSlice, slice, getSpan"), ("views", "Span"), ("sequences", "Vec, IndexedBase, Array, itemwise_less_than")],
     ABS, "proof",
     "Slices and spans for all sizes; vectors and arrays at two to four elements with arbitrary contents, because allocation sizes must be known to follow each element.")

prop("C14", "Ids keep index and mask apart, and stores return what was put under an id",
     "An id made from an index gives that index back; its mask and its index are set and read independently, a mask that does not fit is rejected, and only the id without an index is nil and has none. Ids are equal when their full values are, and ordered by index. "
     "Stepping, advancing and measuring ids works on the index alone, saturates at both ends and never changes the mask. "
     "A store returns under each id the value it was added or inserted with, numbers values in order, knows exactly its own ids whatever their mask, and rejects nil and foreign ones; an interning store gives equal values one id and different values different ids, and a store of several kinds keeps the kinds apart.",
     ["all_inputs", "error_paths"], "every id value, index, mask and step for 32 and 64 bit ids with and without mask; stores of up to three elements with arbitrary values",
     "Index, value and mask differ by one or by a shift; mixing them up shows only for masked ids or at the ends of the range. Nothing in the tests uses ids.",
     ["src/hstd/stdlib/dod_base.hpp", "src/hstd/stdlib/dod_base_intern.hpp", "src/hstd/stdlib/dod_base_multi.hpp"],
     [("ids", "dod::Id, DECL_ID_TYPE_MASKED"), ("stepping", "operator+, operator++, operator--, distance, size"), ("stores", "dod::Store, dod::InternStore, dod::MultiStore")],
     ABS, "proof",
     "Access with ids beyond 2^31 elements is left out (indices are int). The interning store is analysed over a stand-in for the standard hash map. Insertion far beyond the end is not specified by the code and not stated.")

prop("C15", "Sets and maps hold exactly what was put in and not taken out",
     "A set contains a value exactly when the value was included, alone, in a range or with another set, and not excluded since; its size counts the distinct values and iterating gives each of them once. Union, sum, intersection, difference, symmetric difference and complement contain exactly the values set theory says, and subset, proper subset and equality answer accordingly. "
     "A map finds a key exactly when it was inserted and not removed, with the value stored last; looking up an absent key gives nothing or is rejected and inserts nothing, get-or-insert keeps an existing value, a unique insertion rejects a present key, popping returns the value and removes only that key, and keys and values list the same entries in the same order.",
     ["inputs", "error_paths"], "sets and maps built from up to two insertions (plus one removal, lookup or second set) over values that coincide or differ, for enum, char and signed char bit sets, hash sets, hash maps and sorted maps",
     "Set operations agree on disjoint or equal operands; wrong ones show only for overlapping operands, values whose ordinal is not the number, or absent keys. Nothing in the tests uses the containers.",
     ["src/hstd/stdlib/IntSet.hpp", "src/hstd/stdlib/SetCommon.hpp", "src/hstd/stdlib/Set.hpp", "src/hstd/stdlib/Map.hpp"],
     [("bit sets", "IntSet"), ("set algebra", "SetBase, UnorderedSet"), ("maps", "MapBase, UnorderedMap, SortedMap")],
     ABS, "proof",
     "Values are picked from three representatives per type that make operands equal, overlapping or disjoint, including the ends of 64 bit words; mapped values are arbitrary. Hash and tree containers of the standard library are replaced by array stand-ins. Ordering of hash sets (subset operators) is left out: it does not compile.")

prop("C16", "Absent values are recognised and never unwrapped",
     "A value is reported nil exactly when it is a null pointer or an optional without value, and empty exactly when it is nil, holds an empty value or has no elements or characters; a variant answers as the alternative it holds. "
     "A check against nil, a checked cast and an assertion let a present, matching, true value through unchanged and throw the library's own error otherwise. "
     "Reading an alternative of a variant by index or by name yields the held object itself or throws; kind, is- and get-methods of a sub-variant agree; a variant made from an index holds that alternative; an error records the line, function and file it is given.",
     ["inputs", "error_paths"], "every pointer, number and optional, every alternative against every other, every container with and without an element",
     "Each helper has overloads for raw, const, owned and shared pointers and for each alternative, and only the refused cases show a missing check; the tests never take them.",
     ["src/hstd/stdlib/Variant.hpp", "src/hstd/stdlib/Exception.hpp", "src/hstd/system/exceptions.hpp", "src/hstd/system/reflection.hpp", "src/hstd/system/basic_templates.hpp"],
     [("absence", "value_metadata::isNil, isEmpty"), ("checks", "logic_assertion_check_not_nil, validated_dynamic_cast, safe_wptr_lock, LOGIC_ASSERTION_CHECK, assert_has_idx"), ("variants", "variant_get, get_sub_variant, SUB_VARIANTS, variant_from_index")],
     ABS, "proof",
     "Message texts and stack traces are not looked at, and a weak pointer is only checked when it refers to nothing (its reference counts are atomics the analysis does not follow).")

prop("C17", "Reflection visits, counts and finds every described field and enumerator",
     "Walking the described fields of a class visits each own and inherited field exactly once whatever its access, base classes first or last as asked, and hands over the very field of the object; comparing all fields tells two objects apart exactly when some field differs. "
     "Field counts, fields by index, indices by field pointer and the tuple of field addresses agree with each other, and an index or field that does not exist is refused. "
     "The described enumerators form a sequence: bounds, ordinals, successors and predecessors follow it, each enumerator prints as its name and each name reads back as its enumerator, and any other name yields nothing. Mixing a value into a hash keeps different values apart.",
     ["inputs", "error_paths"], "every object of class shapes with several bases, nested bases, protected and private, no and undescribed fields; every index; enumerations with gaps, unsorted values, one value and names differing only in case",
     "Every serialiser, comparison, hash and language binding goes through these walks; a skipped base, a wrong order or a dropped access level leaves out data without any error, and the tests look at public, single-inheritance fields.",
     ["src/hstd/system/reflection.hpp"],
     [("fields", "for_each_field_with_bases and variants, equal_on_all_fields, get_*_field_*"), ("enumerators", "value_domain, enum_serde, string_to_enum"), ("hashing", "hax_hash_combine")],
     ABS, "proof",
     "Which members a class describes is C08. Case-insensitive reading of names (a C library function) and names shorter than those of the enumeration are not decided.")

prop("C18", "Ordinals, successors and saturating arithmetic respect the value range",
     "For every integer type, the low and high bounds enclose every value, successor and predecessor are inverse and step by exactly one, and ordinals order values exactly as the values themselves are ordered, characters counting as unsigned bytes. "
     "A saturating addition or subtraction yields the exact mathematical result when the type can represent it and the nearer bound otherwise, whatever the sign or width of the amount.",
     ["inputs"], "every value and every amount of every integer width and signedness",
     "Wrap-around and truncation appear only at the ends of the ranges, for particular width and sign combinations.",
     ["src/hstd/system/basic_templates.hpp"],
     [("range helpers", "value_domain, value_domain_ungapped"), ("overflow-checked arithmetic", "saturating_add, saturating_sub, saturating_add_any")],
     ABS, "proof", "Eight integer types, twenty operand combinations, all values; ordinals of 64-bit unsigned values up to the signed maximum. Trusts clang and lib/irabs.py.")

prop("C19", "Every graph-search event reaches exactly the callback set for it",
     "A search visitor calls, for each event of a breadth-first, depth-first or Bellman-Ford search, the callback registered for that event, exactly once, with the very vertex or edge and graph of the event; events without a callback do nothing, registering one callback neither registers nor replaces another, and registration hands back the same visitor.",
     ["inputs"], "every event, every vertex, edge and graph, every single registered callback",
     "Each of the two dozen near-identical event methods can be wired to a wrong callback on its own; no test runs a search.",
     ["src/hstd/ext/graphwrap.hpp"],
     [("one optional callback per event", "boost_visitor_callback_base and its three users")],
     ABS, "proof", "Callbacks are arbitrary functions; each event is checked against each registered callback, with graphs that cannot be copied. Trusts clang and lib/irabs.py.")

prop("C20", "Geometry operations compute what their names say, on every coordinate",
     "Adding, subtracting, scaling and dividing points, sizes, rectangles, polygons and paths acts on every coordinate alike and leaves the operands alone; dot and cross products, lengths, centres, widths and heights have their mathematical values; padding a rectangle moves each side by the amount given for that side; extending a rectangle yields the smallest rectangle that covers both inputs. "
     "A path command keeps the points it was made from, and the position of a path is the end of its last command, or the start of the subpath when that was closed.",
     ["inputs"], "all real coordinates, factors and paddings",
     "Coordinates are unbounded reals and the errors (a wrong axis, a wrong side, lost fractions) show only for asymmetric or fractional values; none of this is run by the tests.",
     ["src/hstd/ext/geometry/hstd_geometry.hpp", "src/hstd/ext/geometry/hstd_geometry.cpp"],
     [("component-wise arithmetic", "Point, Size, Rect, Polygon, Path operators"), ("bounding box merge", "Rect::extend"), ("subpath tracking", "Path::currentPosition")],
     ABS + ", floating-point values as polynomials over the reals", "proof",
     "Holds over the reals: rounding, overflow and NaN are not modelled. Paths and polygons are analysed with up to four commands or two points. Trusts clang and lib/irabs.py.")

AST = "custom rules over the type-checked syntax tree (libTooling)"

prop("C06", "Every document field is stored to and restored from the same message field",
     "Serialising a document node to its protobuf message and reading it back goes through the same message field in both directions for every field of every node type: what is written from a member is read into that member, no field is written without being read or read without being written, every declared field takes part, an optional field is transferred exactly when it is present, and every alternative of a variant is written and read under its own case.",
     ["configurations"], "every node and nested type, every field, every variant alternative",
     "There are about 165 converter pairs with 900 field transfers; a single crossed or dropped field shows only for a document that uses it, and the tests do not serialise.",
     ["src/haxorg/serde/SemOrgSerdeDefinitions.cpp", "src/haxorg/serde/SemOrgSerde.cpp", "src/haxorg/serde/SemOrgSerde.hpp"],
     [("paired converters", "proto_serde<P, T>::write / read"), ("generated accessors", "SemOrg.proto")],
     "field-flow analysis: " + AST, "other",
     "Decides which member flows into which message field and back, on every path, not what the scalar conversions compute; shapes the analysis does not follow are counted as not understood and never alarm.")

prop("C21", "Text and number helpers render exactly what they are given",
     "Joining a list puts the separator exactly between neighbouring elements, in order, with nothing before the first and nothing after the last, and yields nothing for an empty list. "
     "Hexadecimal and binary formatting of an integer shows that very value in its base (upper-case digits for hexadecimal), padded with zeroes to the full width of its type. "
     "Two numbers are close exactly when they differ by no more than the absolute tolerance plus the relative tolerance times the magnitude of the second, one part in 10^8 and 10^5 when no tolerances are given. "
     "A string literal keeps all of its characters, and demangling yields the readable name, or the given name when there is none, without leaking or reading freed memory.",
     ["inputs"], "every list length and separator, every integer of ten types, all real numbers and tolerances, every literal length, both outcomes of the demangler",
     "Lengths, values and tolerances are unbounded and the helpers have no tests; a separator error shows only for some lengths or for empty elements.",
     ["src/hstd/system/string_convert.hpp", "src/hstd/system/string_base.cpp", "src/hstd/system/aux_utils.cpp", "src/hstd/system/basic_typedefs.hpp", "src/hstd/system/basic_templates.cpp"],
     [("separator before all but the first", "join"), ("width computed from the type", "format_string_to_hex, format_string_to_bin"), ("mixed tolerance", "isclose"), ("owned buffer", "demangle")],
     ABS + ", strings as descriptions of their origin", "proof",
     "String and format libraries are replaced by stand-ins that record where text comes from (obl/ghost); digits themselves are {fmt}'s. Floating point is analysed over the reals. Trusts clang and lib/irabs.py.")

prop("C22", "Compile-time type queries answer truthfully",
     "Membership of a type in a list is reported exactly when that very type is in it; derivation from a template exactly when the class or one of its bases is an instance of it; completeness exactly when the size is known; a smart pointer is stripped of exactly one layer; the value-domain and default-value concepts hold exactly for the types that provide what they name; the name of a type is its name and nothing else. "
     "Integer powers have their mathematical value, the fixed-width types have their width and sign, the for-each macro calls its macro once per element in order, and the describing macros declare and describe the listed enumerators and fields in order.",
     ["configurations"], "a systematic set of type lists, class hierarchies, pointer types, integer powers and macro argument lists",
     "These answers are computed by the compiler while other code is built; a wrong answer silently selects another branch and no test asks for one.",
     ["src/hstd/system/aux_templates.hpp", "src/hstd/system/basic_templates.hpp", "src/hstd/system/basic_typedefs.hpp", "src/hstd/system/macros.hpp", "src/hstd/stdlib/Ptrs.hpp", "src/hstd/system/aux_utils.hpp"],
     [("type traits and concepts", "is_in_pack, is_base_of_template, is_complete, remove_smart_pointer, IsAnyOf"), ("describing macros", "DECL_DESCRIBED_ENUM, DESC_FIELDS, FOR_EACH_CALL_WITH_PASS")],
     "type-level witnesses decided by the compiler's type checker", "other",
     "Decides the listed instances, not all instances; nothing is executed.")

prop("C07", "Freezing a document into the immutable store and thawing it keeps every field",
     "When a mutable node is added to the immutable store, each field of the stored node is made from the field of the same name, and no field of the mutable node lacks a counterpart; when it is read back, each field is restored from the field of the same name. "
     "Optional fields are converted exactly when present, every element of a sequence or map is converted, alternatives and enumerators correspond in both models, and the converted value is stored and handed back as it is.",
     ["inputs", "configurations"], "every pair of mutable and immutable classes (93) in both directions, every generic converter and store entry point",
     "The converters are two thousand near-identical lines; a dropped or crossed field loses data only for documents that use that field of that node.",
     ["src/haxorg/imm/ImmOrgSerde.tcc", "src/haxorg/imm/ImmOrgStore.cpp", "src/haxorg/imm/ImmOrgTypes.hpp"],
     [("field converters", "ImmSemSerde<Sem, Imm>::to_immer, from_immer"), ("containers", "ImmSemSerde for Opt, Vec, maps, variants, boxes"), ("store", "ImmAstKindStore::add, get")],
     AST, "other",
     "Values converted as a whole by the same type on both sides are handed through unchanged. Converters of another shape are counted as not understood and never alarm.")

prop("C08", "Reflection names every member, base and enumerator exactly once",
     "For every reflected class of the document model (mutable and immutable nodes and the types nested in or shared by them) the reflection data lists each public data member exactly once, under its own name, and each base class whose members are reflected; for every reflected enumeration it lists each enumerator exactly once under its own name. "
     "Equality, hashing, interning, exporting, JSON and YAML conversion and language bindings iterate this data, so nothing is left out of them. Source locations and a few callback, cache and tracing members of helper classes are deliberately not reflected.",
     ["configurations"], "every described class and enumeration in src/hstd and src/haxorg, every member, base and enumerator",
     "A member missing from the list compiles and is silently ignored by equality, hashing and every exporter; it shows only for two objects that differ in exactly that member.",
     ["src/haxorg/sem/SemOrgTypes.hpp", "src/haxorg/sem/SemOrgSharedTypes.hpp", "src/haxorg/imm/ImmOrgTypes.hpp", "src/haxorg/sem/SemOrgEnums.hpp", "src/hstd"],
     [("member and base lists", "BOOST_DESCRIBE_CLASS"), ("enumerator lists", "BOOST_DESCRIBE_ENUM")],
     AST, "other",
     "Headers that need a layout library which is not installed are left out; class templates are compared only where the members are not dependent.")

prop("C09", "The kind of a node or value tells what it is, and every kind is handled",
     "Every mutable and immutable document node reports the kind that carries the name of its class, both as an object and as a type. In every value with alternatives the kinds number the alternatives in order, each `isX` query holds exactly for kind X and each `getX` yields alternative X. "
     "Every dispatch over an enumeration has a case for each of its values or a default; a dispatch that refuses unknown kinds does not refuse one of the existing ones; a case for a kind of node works on nodes of that kind; functions that turn an enumeration into text give different values different names.",
     ["configurations"], "80 node kinds in two representations, 17 values with alternatives, every switch over an enumeration in the analysed units",
     "One wrong kind among two hundred near-identical lines sends a node through the code of another; it shows only for documents with that node.",
     ["src/haxorg/sem/SemOrgTypes.hpp", "src/haxorg/imm/ImmOrgTypes.hpp", "src/haxorg/sem/SemOrgSharedTypes.hpp", "src/haxorg/sem/SemOrgFormat.cpp", "src/haxorg/exporters", "src/haxorg/parse", "src/hstd/ext/graph/visual/graph_graphviz.cpp"],
     [("kind constants", "getKind, staticKind"), ("discriminated values", "getKind, is*, get* of the shared types"), ("dispatch", "switch over OrgSemKind and other enumerations")],
     AST, "other",
     "Thirty units and all reflected headers; accessors of another shape are counted as not understood and never alarm.")

prop("C25", "Sequences, views and sequence helpers deliver exactly their elements, in order",
     "Iterating over a generator yields each value its body yields, in order and once, and ends where the body ends; a moved generator carries on and an abandoned one is released. "
     "Sequences built on it deliver exactly the described elements: every stored value with its own id, every key of a typed array with its value, every index, every pair of a product, both sides of a zip up to the longer one with the missing side marked. "
     "Views over a range show the elements of that range (present ones only, unpacked, first or second halves, collected). Mapping, reversing, sorting by order or key, partitioning, finding and asking all elements give the result the name says and leave their input alone.",
     ["inputs"], "sequences of zero to four elements with arbitrary contents, all 256 keys of a byte-indexed array",
     "A sequence that stops one early, repeats its last element or never ends is noticed only by a caller that counts; no test iterates over a store, a typed array or a zip of unequal lengths.",
     ["src/hstd/system/generator.hpp", "src/hstd/stdlib/Ranges.hpp", "src/hstd/stdlib/algorithms.hpp", "src/hstd/stdlib/sequtils.hpp", "src/hstd/stdlib/Array.hpp", "src/hstd/stdlib/diffs.hpp", "src/hstd/stdlib/dod_base.hpp"],
     [("generator", "generator::iterator, begin, end"), ("sequences", "Store::pairs, Store::items, TypArray::pairs, zip, zipToMax, carthesian, indexed_get_iterator"), ("views", "gen_view, own_view, make_collect, drop_if_nullopt, unpack_optional, rv_transform_pair_*"), ("helpers", "map, reversed, sorted, sortedBy, partition, index_of, all_of")],
     ABS, "proof",
     "Lengths are fixed per obligation. Sliding tuple views keep their width in a variable initialised at start-up and are not decided.")

prop("C10", "Exporters visit every node and field under its own name and drop no value",
     "Every exporter sends a node to the visitor of its own kind, exactly once and between paired push and pop hooks. The visitor visits each field of the node or value, once, under the name of the field (alternatives of discriminated values are not exported this way). "
     "A value that is there reaches the output, also when empty values are skipped, every element of a sequence or map is exported with its key, and the content of an absent value is never read. Plain text contains the title before the subnodes, and the start of a time range before its end.",
     ["inputs", "configurations"], "208 visited types, 80 kinds of nodes, the JSON, YAML, tree, s-expression and plain text exporters",
     "A missing or misnamed field is one line of fourteen hundred alike and shows only in the export of a document that uses the field.",
     ["src/haxorg/exporters/Exporter.tcc", "src/haxorg/exporters/ExporterBase.hpp", "src/haxorg/exporters/Exporter.cpp", "src/haxorg/exporters/ExporterJson.cpp", "src/haxorg/exporters/ExporterJson.hpp", "src/haxorg/exporters/exporteryaml.hpp", "src/haxorg/exporters/exportertree.cpp", "src/haxorg/exporters/exportersimplesexpr.hpp", "src/haxorg/exporters/ExporterUltraplain.cpp", "src/haxorg/exporters/ExporterUltraplain.hpp"],
     [("field visits", "Exporter::visit*, visitFieldRedirect"), ("dispatch", "Exporter::visitDispatch"), ("values", "visitField, eval of the exporters")],
     AST, "other",
     "Conditions are evaluated over presence of the value and the skip flags; other conditions are treated as possible either way and do not alarm.")

prop("C23", "Equality, ordering and hashing agree on what makes values equal",
     "Each comparison operator compares a member of one operand with the same member of the other. Values with equal members are equal, and values that differ in a single compared member are not; the equality of document values leaves no data member out (nodes and interned values ignore only their source location). "
     "Each operator< is a strict weak order in which exactly the equal values are equivalent, and the other ordering operators agree with it. Every immutable node type has an equality and a hash, and a hash depends on no member that equality ignores, so equal values have equal hashes.",
     ["inputs", "configurations"], "every comparison operator and std::hash of src/hstd and src/haxorg, over all combinations of per-member outcomes less, equal and greater",
     "A dropped or crossed member is visible only for two values that differ in exactly that member; a broken order corrupts ordered containers only for particular key triples.",
     ["src/haxorg/imm/ImmOrgHash.cpp", "src/haxorg/imm/ImmOrg.hpp", "src/haxorg/imm/ImmOrgBase.hpp", "src/haxorg/sem/SemOrgSharedTypes.hpp", "src/haxorg/lexbase/SourceManager.hpp", "src/hstd/stdlib/Time.hpp", "src/hstd/stdlib/BackwardsIndex.hpp"],
     [("equality", "operator=="), ("ordering", "operator<"), ("hashing", "std::hash, imm_hash_build")],
     AST, "other",
     "Member comparisons are abstracted to their outcome (less, equal, greater). Operators that compare computed values or call unknown code are counted as not understood and never alarm. A few types compare by identity on purpose (labels, adapters, map nodes).")

prop("C24", "Orders handed to sorting and searching are strict weak orders",
     "Every comparison given to a sort, to a search for the smallest or largest element or to a queue is a strict weak order on the elements, whatever the captured options are: no element comes before itself, no two elements come before each other, the order is transitive, elements it cannot tell apart form groups, and it does tell some elements apart. "
     "Otherwise the library may read outside the sorted range, drop elements or give an order that depends on the input order.",
     ["inputs"], "every comparator lambda and comparator class of src/hstd and src/haxorg that type-checks offline, over all pairs and triples of elements",
     "A comparator that answers true for equal elements works until a range is long enough and holds duplicates; short test inputs are sorted by insertion and never show it.",
     ["src/hstd/stdlib/RangeTree.hpp", "src/hstd/stdlib/algorithms.hpp", "src/hstd/stdlib/Json.cpp", "src/hstd/ext/error_write.cpp", "src/hstd/ext/textlayouter.cpp", "src/hstd/ext/astdiff/astdiff.hpp", "src/hstd/ext/graph/base/graph_hierarchy.cpp", "src/haxorg/lexbase/AstSpec.hpp", "src/haxorg/imm/ImmOrgStore.cpp", "src/haxorg/sem/SemOrgFormat.cpp"],
     [("sorting", "std::sort, rs::sort, sorted, sortedBy"), ("extremes", "std::min_element"), ("queues", "std::priority_queue with HeightLess")],
     AST, "other",
     "What a comparator reads from an element is an opaque component with a total order of its own. Comparators between different types (lower_bound) and the layout code behind the optional solver are not looked at.")

prop("C26", "A parsed node carries the children its specification names, in place",
     "Whenever the parser completes a node successfully, the node has a child for each position the node specification names for its kind, and the child there is one of the kinds that may stand under that name (the header arguments of a source block at the position of HeaderArgs, an absent part as an Empty node): no part is left out, added twice or put at the place of its neighbour on any path. "
     "Nodes are closed inside out and once, a specification names each position and each name once, and the building steps of the parser (open, add a token, add an empty node, add a generated token, close) each do that to the node tree.",
     ["inputs"], "every path through the parser functions to a successful return, for the 43 node kinds listed in the table of the rule: headings, list items, links, footnotes, symbols, time stamps and ranges, source, export, example, quote, center, comment and dynamic blocks, inline source and export, tables, rows and cells, drawers' properties and logbooks, hashtags, macros, critic marks, attributes and the keyword commands",
     "The converter takes children by position, so one child too many on a rare path (a block without arguments) silently shifts every later part; tests see only the paths their documents take, and the parser is not part of the tested build.",
     ["src/haxorg/parse/OrgParser.cpp", "src/haxorg/parse/OrgParserUtils.cpp", "src/haxorg/parse/OrgParser.hpp", "src/haxorg/parse/OrgSpec.cpp", "src/haxorg/parse/OrgTypes.hpp"],
     [("parser functions", "OrgParser::parse*"), ("building steps", "OrgParser::start, token, empty, fake, end_impl, NodeGuard"), ("specification", "getOrgSpec")],
     AST, "other",
     "Kinds whose tree does not follow the specification today (drawers, titles, captions, creators, results and raw custom commands) are left out, and so are paths that end in an error. Contents of running text are not looked at.")

prop("C27", "The converter fills each document field from the part that stands for it",
     "For every node of the syntax tree the converter produces the document class of its kind and fills each field from the part of the node that stands for it, and from no other: the title of a heading from Title, the ends of a time range from From and To, the description of a link from its Desc, cells from the body of their row. "
     "Where a word decides, the word and the field or value belong together (deadline, closed and scheduled; the export options and their switches; drawer properties; log entries; repeater modes and periods; link protocols; critic marks; check boxes; include kinds; start-up visibility). A part that may be absent is used exactly when it is there, and every name a part is asked for by exists in the specification of that kind of node.",
     ["inputs"], "every path through the converter functions: 234 fields of document classes with 355 origins, 18 writes of optional parts, 69 kinds of node, 136 uses of specification names",
     "The converter is three thousand lines of near-identical assignments: one crossed name, word or field gives a document that looks fine and says something else, and no test in the tested build converts anything.",
     ["src/haxorg/sem/SemConvert.cpp", "src/haxorg/sem/SemConvert.hpp", "src/haxorg/parse/OrgSpec.cpp"],
     [("converter", "OrgConverter::convert*, convertDocumentOptions, updateDocument"), ("specification", "getOrgSpec")],
     AST, "other",
     "The text computations on the way (stripping, splitting, number and time parsing, the formula grammar) are followed as a whole, not evaluated. A field whose value comes through a table or code the analysis does not follow is left undecided and named in the evidence. Two names asked for that no specification has are recorded as known findings.")

prop("C28", "The formatter writes each part of a document in its own notation",
     "For every kind of node the formatter covers, the text it writes is the org notation of that node: the same marks, keywords and separators around the same fields, in the same order, under the same conditions. A part that is present is written once and in its place, a part that is absent leaves no trace, list items keep their separators and their lines, and each value of an enumeration is written with its own word: check boxes, repeater modes and periods, critic marks, link protocols, start-up visibility, column summaries, todo keyword transitions, drawer properties and log entries. "
     "Whatever is opened is closed: brackets, drawers, blocks.",
     ["inputs"], "77 of the formatter's functions, each under every combination of up to two deviations from nothing optional present and from everything present: about 2400 different texts",
     "Formatting is how a changed document goes back to disk: a crossed mark or an inverted condition loses or changes what the user wrote, and no test in the tested build formats anything. Ten lines of it were wrong.",
     ["src/haxorg/sem/SemOrgFormat.cpp", "src/haxorg/sem/SemOrgFormat.hpp"],
     [("formatter", "Formatter::toString overloads, add_subnodes, stackAttached"), ("helpers", "nestedHashtag, colonHashtags")],
     AST, "other",
     "The layout engine that turns blocks into text, number and time rendering and escaping are taken as they are. Overloads that are not written yet (they return their own name) and the columns command, which writes no columns, are left out. A text the analysis cannot follow is left undecided and named in the evidence.")

prop("C29", "Each mark, word and command of the notation becomes its own token",
     "The tokenizer gives every mark of the org notation the token that stands for it and takes exactly its characters: single marks such as brackets, quotes and emphasis marks, longer ones such as ::, --, ]], <<, <<< and the critic marks {++ ++} {-- --} {== ==} {~~ ~> ~~} {>> <<}, the time words SCHEDULED:, DEADLINE: and CLOSED:, and link protocols. A longer mark is never taken by the shorter one it begins with. "
     "Each command word after #+ makes its own token and what follows it is read in the way of that command (raw text, arguments or markup), begin and end words of blocks make the begin and end tokens of that block, and the lines of an export, example or source block run up to the end of the same block.",
     ["inputs"], "about 160 places in the tokenizer that make a token, 89 marks, 34 words, 39 commands",
     "Everything the parser sees comes from these few hundred lines; a crossed mark silently turns into other markup, and no test in the tested build tokenizes anything.",
     ["src/haxorg/base_lexer/base_token_tokenize.cpp"],
     [("marks", "switch_regular_char, switch_cmd_argument, switch_word"), ("commands", "switch_command, CmdSpec")],
     AST, "other",
     "The table of marks was extracted from the present tokenizer and read through, not written independently, so the check mainly detects changes. Patterns given to the parser generator library (dates, footnotes, check boxes, property names) are taken as they are, and how far the free-running tokens (words, raw text) go is not judged. A place under a condition that is not understood is judged for contradictions only. Four command words that can never match are recorded as known findings.")

prop("C11", "Language bindings bind every name to the member of that name",
     "In the Python, JavaScript and C interfaces each name given to a field, method, function, enumerator or type denotes the C++ entity of that name (keyword escapes, overload suffixes and operator protocol names aside), in the class that is bound and in the constness the name states. "
     "Every plain public field of each bound document class can be reached, every enumerator has a name, C enumerators have the numbers of their C++ counterparts, argument names and argument order follow the parameters, function tables hold the functions of their own type, each C handle type stands for one C++ class, and enumerations compare and convert by value.",
     ["configurations"], "about 4400 registrations in the Python and JavaScript modules, 2300 C functions and function tables, 44 mirrored enumerations",
     "The bindings are ten thousand near-identical lines that no C++ test calls; a crossed line compiles whenever the two members have the same type.",
     ["src/py_libs/pyhaxorg/pyhaxorg.cpp", "src/py_libs/pyhaxorg/pyhaxorg_manual_impl.hpp", "src/wrappers/js/haxorg_wasm.cpp", "src/wrappers/js/node_utils.hpp", "src/wrappers/c/haxorg_c.cpp", "src/wrappers/c/haxorg_c.h", "src/wrappers/c/haxorg_c_vtables.cpp"],
     [("Python", "nanobind class_, enum_ registrations"), ("JavaScript", "emscripten class_ registrations"), ("C", "execute_cpp, get_cpp_field, execute_destroy, VTable")],
     AST, "other",
     "Lambdas are judged only for the comparison, conversion, construction and attribute protocols. Alternatives of discriminated values are reached through their accessors, not as fields.")

prop("C90", "Formatting a parsed document and parsing it again gives the same document",
     "For every document text, formatting the parsed document and parsing the result yields a document with the same nodes and field values.",
     ["inputs"], "every document text",
     "Round trips depend on the interplay of tokenizer, parser, converter and formatter.",
     ["src/haxorg/parse", "src/haxorg/sem/SemOrgFormat.cpp", "src/haxorg/sem/SemConvert.cpp"],
     [("pipeline", "tokenize, parse, convert, format")],
     na="Compares the results of four whole algorithms on arbitrary text. Deciding it from the source would mean executing them symbolically, and the patterns of the tokenizer come from a library that is not installed.")

prop("C91", "The tree diff turns the old document into the new one",
     "Applying the edit script computed for two documents to the first yields the second.",
     ["inputs"], "every pair of trees",
     "Wrong scripts show only for particular move and rename combinations.",
     ["src/hstd/ext/astdiff"],
     [("matching and script", "TreeMirror, ASTDiff")],
     na="Correctness of a heuristic matching and of the script built from it is a relation between unbounded trees; the static domains here have no trees.")

prop("C92", "The text layouter picks the cheapest layout",
     "Among the layouts a block allows, the one printed has the smallest cost.",
     ["inputs"], "every block tree and width",
     "A wrong choice is still a valid layout, only a worse one.",
     ["src/hstd/ext/textlayouter.hpp", "src/hstd/ext/textlayouter.cpp"],
     [("dynamic programming over knots", "Solution, LytBlock")],
     na="Optimality of a dynamic program over unbounded block trees is beyond dataflow, typestate and type rules; it would need a proof of the algorithm or runs against a reference.")
