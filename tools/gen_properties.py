#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script so that the prose stays readable)."""
import json, os
VEC = ["enum_vec/src/vec_u8/mod.rs", "enum_vec/src/vec_u16/mod.rs", "enum_vec/src/vec_u32/mod.rs",
       "enum_vec/src/vec_u64/mod.rs", "enum_vec/src/vec_u128/mod.rs", "enum_vec/src/smallvec_u32/mod.rs"]
LIKE = ["enum_like/src/lib.rs"]
DER = ["enum_like_derive/src/lib.rs"]
SET = ["enum_set/src/lib.rs"]
M = lambda n, w: {"name": n, "where": w}
S = lambda n, m, w: {"name": n, "meaning": m, "where": w}
V = "enum_vec/src/vec_u32/mod.rs (and the five sibling modules)"
storage = S("storage/num_elements", "packed blocks and the logical length; the blocks may be longer than the length needs and hold stale bits", V)
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": mech, "hook_needed": hook}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "EnumVec behaves as a list over every history of operations",
  "In any history of public safe operations, on any storage variant and any element type it accepts, an EnumVec holds exactly the sequence of values that a plain list (Vec) given the same operations holds, and every operation returns what the list operation returns. Positions not touched by an operation keep their value, and length and emptiness always agree with the list.",
  ["histories", "inputs", "configurations"], "all operation histories x 6 storage variants x element widths x debug/release arithmetic",
  "The tests drive each operation on a handful of short vectors of 2-5 bit types; corruption depends on the combination of operation order, length modulo block, element width and stale bits left by earlier operations.",
  VEC, [M("bit packing: block_index, get_raw_unchecked, set_raw_unchecked", V), M("grow_if_needed / fix_storage keep blocks in step with the length", V)], [storage],
  ["return values, len, get(i) for all i after each operation"])
p("C02", "Positional edits move exactly the elements they should",
  "insert, remove, swap_remove, swap, retain, truncate and split_off transform the contents exactly as the same edit on a list, at every in-range position including block edges, the first and the last, whatever operations came before. The removed or split-off values are returned exactly and the elements not selected keep their values and order.",
  ["inputs", "histories"], "every (length, position, width, storage) near block edges, after arbitrary prior histories",
  "The doc tests edit 2-bit and 5-bit vectors at a few positions with a constant filler value; errors at block edges, in the wasted bits of a block, or for elements as wide as a block do not show.",
  VEC, [M("insert/remove block shifting", V), M("swap, swap_remove, retain, truncate, split_off", V)], [storage], ["contents before and after each edit"])
p("C03", "Bulk construction and growth add exactly the given items",
  "extend, collecting, conversion from and to Vec, from_slice, the enum_vec! macro, from_elem, resize and append yield the previous contents followed by exactly the supplied items in order, for every count and every starting length, with any honest iterator. append leaves the source empty and both vectors fully usable.",
  ["inputs", "histories"], "all counts and starting lengths (aligned and not), iterators with exact, low or absent size hints, prior histories",
  "Tests grow by counts well under or equal to one fixed size; the fast paths for aligned append and large fills depend on length modulo block and count thresholds.",
  VEC + ["enum_vec/src/lib.rs"], [M("Extend::extend, extend_with_value, append, reserve", V), M("enum_vec! macro", "enum_vec/src/lib.rs")], [storage], ["contents of destination and source after each bulk operation"])
p("C04", "any and all agree with an element-by-element search",
  "any(x) is true exactly when some element equals x, and all(x) is true exactly when every element does (true for an empty vector), for every value x and every contents, whatever stale data is held beyond the length or in unused bits.",
  ["inputs", "histories"], "all contents, queried values, lengths around block edges, widths and leftover bits",
  "The bit tricks work on whole blocks: a mask error shows only for particular widths, tail lengths, neighbouring values or stale bits, while tests query near-constant vectors of 1-3 bit types.",
  VEC, [M("any: haszero bit trick with last-block mask", V), M("all: whole-block compare with valid_mask", V)], [storage], ["any/all result versus get on every index"])
p("C05", "Iteration visits each element once, in order, from both ends",
  "By-reference and by-value iteration yield every element exactly once in index order; next, next_back, nth and adaptors may be interleaved freely, the reported remaining length is always exact, and an exhausted iterator stays exhausted. for_each visits and updates each element in order, and Debug output lists exactly the elements.",
  ["inputs", "histories"], "all lengths and all interleavings of front/back/nth/size_hint/count/rev/skip calls",
  "No test calls next_back, nth, count, size_hint or Debug; interleavings are unbounded.",
  VEC, [M("EnumVecIter / EnumVecIntoIter over Range", V), M("for_each", V), M("Debug", V)], None, ["items, size_hint and len after each iterator call"])
p("C06", "Equality, hash, clones and later behaviour depend only on contents",
  "Two vectors with equal elements compare equal and hash equally, and differing ones compare unequal, no matter which operations produced them or what spare space they hold. A vector with any history then behaves under further operations exactly as one freshly built from its elements, and a clone shares nothing with its original.",
  ["histories"], "pairs of histories leading to equal or nearly equal contents, followed by arbitrary operations",
  "Tests compare almost nothing with == and never hash; stale storage after truncation, removal, reservation or append exists only in longer histories.",
  VEC, [M("PartialEq / Hash element by element", V), M("derived Clone of storage", V)], [storage], ["==, hash, clone, continuation runs on vector and rebuilt twin"])
p("C07", "No safe API use can cause undefined behaviour",
  "No sequence of calls to safe functions of these crates, with any arguments and with panics caught along the way, reads or writes outside live storage, touches uninitialised memory or otherwise triggers undefined behaviour, in builds with and without overflow checks. This includes extreme lengths, indices and reservation sizes and converting arrays to discriminants.",
  ["histories", "inputs", "configurations"], "safe-call histories with extreme arguments, debug and optimised builds, all storage variants and element kinds",
  "Unchecked block accesses are only sound while blocks keep pace with the length; unit tests never run under a sanitizer, in release arithmetic or with extreme sizes.",
  VEC + LIKE + SET, [M("unsafe get/set_raw_unchecked guarded by len", V), M("array to_discr", "enum_like/src/lib.rs array_impls!"), M("reserve/split_off/append keep storage long enough", V)], [storage],
  ["std unsafe-precondition checks, AddressSanitizer, Miri"])
p("C08", "Element decoding is only ever asked for valid discriminants",
  "For element types that honour the EnumLike contract and whose conversions do not panic, no safe operation on EnumVec, EnumSet, Values or the packed wrappers ever asks the type to decode a discriminant outside 0..NUM_VARIANTS, even after panics or with dishonest iterators. Nor do the built-in and derived mappings ask that of the types they are made of. Every value handed out or offered to a callback is one of the type's values.",
  ["histories", "inputs"], "all histories, widths whose variant count is not a power of two, caught panics",
  "Implementations may rely on this for soundness; only types with spare bit patterns reveal it and the tests' from_discr rarely rejects.",
  VEC + LIKE + SET, [M("get -> from_discr", V), M("Values::next", "enum_like/src/lib.rs"), M("WrapIter::next", "enum_set/src/lib.rs")], [storage], ["an element type that logs every from_discr argument"])
p("C09", "Memory use is the packed size, and all of it is returned",
  "A vector of n elements that need b bits holds, after shrink_to_fit, exactly ceil(n / floor(B/b)) blocks of B bits, and during any operation its heap use stays within a small constant factor of that packed size for the longest length and reservation so far; a small vector that fits its inline storage uses no heap. Dropping vectors, iterators and sets, also after caught panics, returns every byte.",
  ["inputs", "histories"], "all lengths, widths and histories; every constructor and growth path",
  "No test looks at storage size or allocations; a constructor that over-allocates passes every test.",
  VEC + ["README.md"], [M("blocks_for_elements, fix_storage, shrink_to_fit, reserve, extend_with_value", V)], [storage], ["counting global allocator, storage().len()"])
p("C10", "Reserved capacity is honoured",
  "After with_capacity(n) or reserve(k), capacity() is at least n, or the length plus k, and growing a vector by any means up to its reported capacity allocates no memory; requests beyond what integers or addresses can express panic and leave the vector as it was. Reserving and shrinking never change the contents.",
  ["inputs", "histories"], "all lengths, reservations (including near the integer limit), growth paths and prior histories",
  "Tests check capacity() >= n for three small constants and never count allocations.",
  VEC, [M("with_capacity, capacity, reserve, shrink_to_fit", V)], [storage], ["capacity(), counting global allocator"])
p("C11", "Out-of-range positions are refused without damage",
  "get past the end returns None and pop on an empty vector returns None; set, insert, remove, swap, swap_remove and split_off with an out-of-range position panic, in builds with and without overflow checks, and leave the vector exactly as it was. Positions up to the integer limit are covered.",
  ["inputs", "configurations"], "every operation x lengths x out-of-range positions up to usize::MAX x build modes",
  "No test calls any operation out of range.",
  VEC, [M("bounds tests in get_raw, set_raw, swap, remove, insert, split_off", V)], None, ["panic or value, contents before and after"])
p("C12", "Panics in user code never add, lose or invent elements",
  "If an iterator being collected or extended from panics or misreports its length, the vector afterwards holds its previous contents followed by exactly the items that were yielded. If a retain or for_each callback panics, the vector remains usable, its length and its not yet visited elements are intact, and every element is a value that was present or assigned.",
  ["fault_sequences", "histories"], "panic injected at every call position of every callback; size hints too low, too high or absent",
  "No test panics inside a callback or uses an iterator with a wrong size hint.",
  VEC, [M("Extend::extend, retain, for_each", V)], [storage], ["contents after catch_unwind"])
p("C13", "The choice of storage block is not observable in results",
  "The same program run on the u8, u16, u32, u64, u128 and inline (smallvec) variants of EnumVec produces the same return values, contents, iteration, equality, hashes and panics. Only memory use, capacity and raw storage may differ.",
  ["programs", "histories"], "all histories run in lock step on six implementations",
  "The five sibling modules are textual copies of one, each tested alone with its own constants; nothing compares them.",
  VEC, [M("enum_vec/gen.sh derives the variants from one source", "enum_vec/gen.sh")], None, ["lock-step comparison of all observations"])
p("C14", "Any element width a storage accepts is stored without loss",
  "Every value of every element type a storage variant accepts, from 2 variants up to the full range of usize, can be stored, read back, searched, compared and edited without altering its neighbours. This covers variant counts just below, at and above each power of two and elements exactly as wide as a block.",
  ["inputs", "programs"], "all variant counts at powers of two and +-1 up to 2^64-1, all storages that accept them, all boundary values",
  "Tests use 2, 3, 4, 10, 17 and 100 variants; the README promises 64-bit and 128-bit storage for elements wider than 32 bits.",
  VEC, [M("BITS_PER_ELEM, ELEMS_PER_BLOCK, ELEMENT_MASK constants", V)], None, ["round trip of extreme values with full neighbours"])
p("C15", "Built-in types map one-to-one onto consecutive discriminants",
  "For unit, bool, Option, Result, tuples of 1 to 32 and arrays of 0 to 32, nested in any way over types that honour the contract, the discriminants are exactly 0..NUM_VARIANTS, every value decodes from its own discriminant, and NUM_VARIANTS is the number of distinct values. Encoding a value never panics or aborts.",
  ["inputs", "programs"], "all values of all nestings (exhaustive when small, sampled when large), all arities",
  "Tests cover up to triples, never encode an array of anything but bool, and never an element type whose bytes cannot all be 0x01.",
  LIKE, [M("impl EnumLike for (), bool, Option, Result, tuple_impls!, array_impls!", "enum_like/src/lib.rs")], None, ["to_discr/from_discr/NUM_VARIANTS"])
p("C16", "Derived types map one-to-one onto consecutive discriminants",
  "For every struct and enum the derive accepts - unit, tuple and named shapes in any mixture, generic, nested, with explicit discriminants or uninhabited parts - discriminants are exactly 0..NUM_VARIANTS, every value decodes from its own discriminant, and NUM_VARIANTS is the number of distinct values. Such types then work unchanged as elements of EnumVec and EnumSet.",
  ["programs", "inputs"], "all type definitions (generated), all their values",
  "The derive crate has no tests of its own; the example tests run the published crate, not this tree.",
  DER + ["example/src/main.rs"], [M("generate_enum_code, generate_struct_code, num_variants_product, from_discr_body, to_discr_body", "enum_like_derive/src/lib.rs")], None, ["generated programs: exhaustive round trip"])
p("C17", "Numbering follows the declared structure",
  "Discriminants follow a fixed order: C-like enums number variants in declaration order ignoring explicit values, mixed enums number unit variants first and then data variants in declaration order, products count with the first field fastest, Some before None, Ok before Err, false before true. Structurally equal tuples, arrays and derived structs number their values identically.",
  ["programs", "inputs"], "all built-in nestings and generated type definitions",
  "Stored data, packed ordering and values() order depend on it; tests pin it for three types of this tree.",
  LIKE + DER, [M("offset/range_high arithmetic", "enum_like_derive/src/lib.rs"), M("Option/Result/tuple/array impls", "enum_like/src/lib.rs")], None, ["expected value list built independently versus values()"])
p("C18", "values() enumerates every value exactly once, under any iterator call",
  "T::values() yields each value of T once in discriminant order; next, nth with any argument, skip, step_by, last, count and size_hint agree with one another at every point, and an exhausted iterator stays exhausted. This holds for types with no values, one value and very many values.",
  ["inputs", "histories"], "all types, all interleavings of iterator calls, nth arguments up to usize::MAX, both build modes",
  "Tests call next, count, one nth and one last, on fresh iterators of small types.",
  LIKE, [M("Values: next, nth, last, count, size_hint", "enum_like/src/lib.rs")], [S("current/max", "position of the enumeration", "enum_like/src/lib.rs Values")], ["item, len and size_hint after each call"])
p("C19", "Packed wrappers return the value they were given",
  "PackedU8 and PackedU16 occupy one and two bytes and give back exactly the value packed, for every value of every type that fits; two wrappers are equal, ordered and hashed as their discriminants are.",
  ["inputs", "programs"], "all values of types of up to 2^8 and 2^16 variants, in particular exactly 2^8 and 2^16",
  "Tests pack two values.",
  LIKE, [M("PackedU8, PackedU16", "enum_like/src/lib.rs")], None, ["get after new, size_of, ==, <, hash"])
p("C20", "Types that cannot be stored are refused at build time",
  "A program that stores elements of a type with more variants than a block can hold, or with fewer than two variants, in an EnumVec, or packs a type of more than 2^8 or 2^16 values into PackedU8 or PackedU16, does not build; programs at the exact limits do build and work.",
  ["programs", "configurations"], "all storage variants x variant counts at, below and above each limit",
  "The test suite cannot contain programs that must not compile (they are commented out).",
  VEC + LIKE, [M("ERROR_TOO_MANY_VARIANTS, ERROR_ZERO_SIZED", V), M("CHECK_LIMIT_VARIANTS", "enum_like/src/lib.rs")], None, ["compiler verdict on generated programs"])
p("C21", "EnumSet behaves as a set over every history",
  "In any history of insert, remove, clear, extend, collect, shrink_to_fit, clone and in-place set operations, an EnumSet contains exactly the values a mathematical set would, insert and remove report whether they changed it, and len, is_empty and contains agree. Values are kept apart even when their discriminants are far apart or at word edges.",
  ["histories", "inputs"], "all histories over element types from 1 to thousands of variants",
  "The crate has one test with one element ('assumed to work because of its simplicity').",
  SET, [M("delegation to bit_set with to_discr/from_discr", "enum_set/src/lib.rs")], [S("inner", "bit set indexed by discriminant", "enum_set/src/lib.rs")], ["return values, contains for every value"])
p("C22", "EnumSet algebra, relations and iteration are set-theoretic",
  "union, intersection, difference and symmetric difference, as iterators and in place, and the subset, superset and disjoint tests give the set-theoretic result for all pairs of sets, with the argument unchanged. Iterators yield each member once in discriminant order with truthful size bounds.",
  ["inputs", "histories"], "all pairs of sets of different extents and histories",
  "No test in the crate uses them; the example covers equal-extent sets of the published crate.",
  SET, [M("union.., union_with.., is_subset, is_superset, is_disjoint, WrapIter", "enum_set/src/lib.rs")], None, ["results versus a BTreeSet"])
p("C23", "EnumSet equality, order, hash and conversion depend only on members",
  "Equal sets compare equal, hash equally and order the same whatever history or spare capacity they have, unequal sets differ, and the order is total and consistent with equality. Converting to and from the underlying bit set and cloning lose and share nothing, and Debug lists exactly the members.",
  ["histories", "inputs"], "pairs and triples of histories",
  "Untested in the crate.",
  SET, [M("derived PartialEq/Ord/Hash/Clone on inner", "enum_set/src/lib.rs"), M("into_bit_set, get_ref, from_bit_set", "enum_set/src/lib.rs")], None, ["==, cmp, hash of twins with different histories"])
p("C24", "Shared containers can be read from many threads at once",
  "EnumVec, EnumSet, their iterators, Values and packed wrappers may be sent and shared between threads whenever their element type may. Any number of threads reading the same container at once get the results a single reader would, without data races, and containers owned by different threads do not affect one another. A container of elements that may be neither sent nor shared may not be either.",
  ["schedules"], "concurrent readers under many interleavings, all read operations",
  "All tests are single-threaded.",
  VEC + SET + LIKE, [M("no interior mutability; auto Send/Sync", V)], None, ["ThreadSanitizer / Miri data-race detector, reader results"])
p("C25", "Raw access follows the documented packed layout",
  "Element i occupies the low-to-high bit field number i mod k of block i div k, where k = floor(B/b) elements of b bits fit a block of B bits, in storage() after every history. Within their stated preconditions the unsafe operations (raw get and set, set_len after reserve, editing storage in place) read and write exactly that field and nothing else. The default EnumVec has blocks of 32 bits.",
  ["histories", "inputs"], "all histories, widths and storages",
  "Tests read or write one raw element at index 0.",
  VEC + ["README.md"], [M("block_index, get_raw_unchecked, set_raw_unchecked, storage, storage_mut, set_len", V)], [storage], ["storage() decoded independently versus get"])
p("C26", "Constant-time operations do not slow down with length",
  "push (amortised), pop, get, set, swap, swap_remove, len and truncate do an amount of work that does not grow with the vector's length (nor with what was removed from it before), and filling a vector by any growth operation takes work and allocations at most proportional to its final length. Every other operation takes work at most proportional to the lengths involved. EnumSet contains, insert and remove likewise do not slow down with the number of members, nor nth, on values() and on the iterators of a vector, with its argument.",
  ["inputs"], "lengths over several orders of magnitude",
  "Tests never measure; swap_remove is documented as O(1).",
  VEC + SET + LIKE, [M("swap_remove = swap + pop; push grows by blocks; truncate keeps storage", V)], None, ["instruction counts under callgrind, allocator events"])
p("C27", "Types that have no faithful numbering are refused at build time",
  "A tuple, array, Option, Result or derived type with more values than usize can count does not build when its numbering is used, in builds with and without optimisation, instead of giving several values one number; types of exactly the largest count build and work. The derive refuses unions, fields that are not EnumLike and types that are not Copy.",
  ["programs", "configurations"], "compositions of built-in and derived types at and beyond 2^64-1 values; definitions outside what the derive accepts",
  "The test suite cannot contain programs that must not compile.",
  LIKE + DER, [M("NUM_VARIANTS as constant arithmetic", "enum_like/src/lib.rs"), M("enum_count, num_variants_product, Data::Union", "enum_like_derive/src/lib.rs")], None, ["compiler verdict on generated programs and their twins"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
