#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["inc/ptl/"+f for f in files],
            state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech],
            observe_at=list(observe), hook_needed=hook)))

STR_STATE=[("representation","inline buffer (22 chars) or heap buffer, plus the stored deallocator","inc/ptl/string.hpp storage_t"),
           ("size","number of characters, a NUL is kept right behind them","inc/ptl/string.hpp storage_t::set_size")]
VEC_STATE=[("buffer","deallocator, pointer, capacity, size","inc/ptl/vector.hpp storage_t")]

# ---------------------------------------------------------------- string
p("S01","Strings keep exactly the characters they were built from",
  "Constructing a string from a view, an iterator range (input or forward), an initializer list, a count of characters or another string, and copying, moving, assigning or swapping strings, yields exactly the source's characters (embedded NULs included) and length, followed by a terminating NUL. Copies are independent of their source, self-assignment, self-move and self-swap change nothing, and a moved-from string is a valid string that can be used and destroyed. This holds at every length, in particular around the switch from in-object to heap storage.",
  ["inputs"],"every content (all byte values) and length, every pair of source/target representations (inline or heap, any spare capacity)",
  "The tests use one 11 and one 24 character literal; they never touch the boundary lengths, spare capacity or arbitrary bytes.",
  ["string.hpp"],[("storage_t copy/move/swap","inc/ptl/string.hpp"),("constructors and assignment operators","inc/ptl/string.hpp")],STR_STATE,["size()","data()","c_str()"])
p("S02","String growth operations insert exactly the requested characters",
  "append, +=, push_back, operator+ and insert (view, range, initializer list, single character, count of characters) leave exactly the old characters with the new ones spliced in at the requested position, the right length and a terminating NUL. The iterator returned by insert designates the first inserted character, and push_back returns a reference to the new last character. The result does not depend on the string's capacity or on whether a reallocation happens.",
  ["inputs","histories"],"every content, old length, spare capacity, position and inserted length, both when the operation fits the buffer and when it must reallocate",
  "The tests run a handful of literals, each from one capacity; whether an in-place or reallocating path runs depends on length, capacity and inserted length together.",
  ["string.hpp"],[("append / insert in-place and reallocating branches","inc/ptl/string.hpp"),("append_no_aliasing / insert_no_aliasing / concat","inc/ptl/string.hpp")],STR_STATE,["size()","data()","returned iterator"])
p("S03","String assign and replace produce exactly the requested content",
  "assign (view, range, initializer list, count of characters) makes the string equal to the given characters, and replace makes it equal to prefix + replacement + suffix, for every combination of old length, replaced range and replacement length (shorter, equal, longer, empty). The length is right and a terminating NUL follows, independent of capacity and of whether a reallocation happens.",
  ["inputs"],"every content, old length, spare capacity, replaced range and replacement length",
  "The tests replace ranges of at most 7 characters in 4 literals and never reach the reallocating branch or a heap string.",
  ["string.hpp"],[("replace, replace_no_aliasing, assign, assign_no_aliasing","inc/ptl/string.hpp")],STR_STATE,["size()","data()"])
p("S04","String shrinking, resizing and element access follow the sequence model",
  "erase, pop_back, clear, resize, reserve, shrink_to_fit and substr (on lvalues and rvalues) change the characters exactly as the same operation on an abstract character sequence would and always leave a terminating NUL; reserve and shrink_to_fit never change the content, capacity is never below size, and erase returns the iterator behind the removed part. erase, pop_back, clear, and resize or reserve within the capacity keep the memory and the capacity. Indexing, at, front, back and all forward and reverse iterators expose exactly those characters, and at throws out_of_range for exactly the indices not below size.",
  ["inputs"],"every content, length, capacity, range and index (all 64-bit index values for at)",
  "The tests check a few literals and only one shrink of one 22 character string.",
  ["string.hpp"],[("erase/resize/reserve/shrink_to_fit/substr/at","inc/ptl/string.hpp")],STR_STATE,["size()","capacity()","data()","iterators"])
p("S05","Modifying a string from a part of itself works like modifying it from a copy",
  "When the argument of append, +=, insert, assign, = or replace is a view or iterator range into the very string being modified, the result is the same as if an independent copy of that part had been passed, for every sub-range, position, length and capacity.",
  ["inputs"],"every content, length, spare capacity, source sub-range, insert position and replaced range",
  "No test passes an argument that aliases the string.",
  ["string.hpp"],[("copy-to-end-then-rotate in place, build-then-swap on reallocation","inc/ptl/string.hpp")],STR_STATE,["size()","data()"])
p("S06","Sequences of string operations stay correct, in bounds and leak-free",
  "Along every sequence of public operations on strings (construction, growth, shrinking, copy, move, swap, self-operations, destruction) each string equals the abstract character sequence after every step, every access stays inside live memory, no character is read before it was written, and every heap buffer is released exactly once.",
  ["histories","inputs"],"every sequence of operations with every argument",
  "Tests run fixed short sequences, without a memory checker.",
  ["string.hpp"],[("storage_t ownership transfer","inc/ptl/string.hpp")],STR_STATE,["all public operations"])
p("S07","A failing string operation throws and leaves the string as it was",
  "When memory cannot be allocated, when a requested size (any value up to the largest size_t) exceeds max_size, or when a constructor or growth operation throws for any other reason, the operation reports it by exception (bad_alloc, length_error) instead of corrupting memory or terminating. The string then still holds its old characters, nothing leaks, and it can be used and destroyed.",
  ["fault_sequences","inputs"],"failure of any allocation the operation makes, every requested count or capacity up to 2^64-1",
  "No test makes an allocation fail or requests a size near the limits.",
  ["string.hpp"],[("build the new buffer before committing","inc/ptl/string.hpp"),("length checks","inc/ptl/string.hpp")],STR_STATE,["exceptions","size()","data()"])
p("S08","String comparison, ordering and hashing agree with the characters",
  "All six comparison operators, in every mix of string, string_view and C string (and for string_ref), compare exactly as lexicographic comparison of the characters as unsigned bytes with the shorter prefix first; they ignore capacity, representation and anything behind the end. Equal strings have equal hashes, equal to the hash of a string_view of the same characters, and streaming a string or string_ref writes exactly its characters.",
  ["inputs"],"all pairs of contents and lengths, inline and heap",
  "Tests compare equal or obviously different literals only.",
  ["string.hpp","string_ref.hpp"],[("comparison operators, std::hash specialisations, operator<<","inc/ptl/string.hpp")],(),["operators","std::hash"])
p("S09","string_ref and array_ref are exact, non-owning views",
  "A string_ref or array_ref covers exactly the referenced elements: data, size, empty, front, back, indexing, forward and reverse iteration, prefix/suffix/sub-range selection and prefix/suffix removal designate the same memory as the corresponding pointer arithmetic on the source, for sources given as pointer pair, pointer and count, C string, string_view, literal or contiguous container. at throws out_of_range for exactly the indices not below size, and writing through a mutable view changes the source element and nothing else.",
  ["inputs"],"every content, length, offset, count and (64-bit) index",
  "Tests use fixed 10 element arrays and literals.",
  ["string_ref.hpp","array_ref.hpp"],[("pointer-pair representation, subviews","inc/ptl/string_ref.hpp"),("pointer-pair representation, subviews","inc/ptl/array_ref.hpp")],(),["data()","size()","iterators","at()"])

# ---------------------------------------------------------------- vector
p("V01","Vector insertion and removal follow the sequence model",
  "push_back, emplace_back, emplace, insert (single, count, range of input or forward iterators, initializer list), erase (single element, range, empty range) and pop_back leave exactly the elements, in order, that the same operation on an abstract sequence would, for every position and count, whether or not a reallocation happens. Returned iterators and references designate the inserted elements, or the element behind the removed ones. Removing elements keeps memory and capacity.",
  ["inputs"],"every element value, size, spare capacity, position and count; trivial and non-trivial element types",
  "Tests insert into and erase from three fixed int vectors.",
  ["vector.hpp"],[("insert_impl, emplace, erase","inc/ptl/vector.hpp")],VEC_STATE,["size()","operator[]","returned iterators"])
p("V02","Vector construction, assignment and resizing follow the sequence model",
  "Constructors, copy and move construction and assignment, assign, resize, reserve, shrink_to_fit, clear and swap leave exactly the elements the abstract sequence operation would (new elements value-initialised or equal to the given value), copies are independent, self-assignment, self-move and self-swap change nothing, and a moved-from vector is valid. Capacity is never below size, clear and resize within the capacity keep memory and capacity, and after reserve(n) insertions and resizes that grow up to n elements keep the existing elements where they are. Indexing, at (throwing out_of_range for exactly the indices not below size), front, back, data and iterators expose exactly the elements.",
  ["inputs"],"every element value, size, capacity and count, every pair of source and target states",
  "Tests use one or two sizes per operation.",
  ["vector.hpp"],[("assign_impl, resize_impl, reserve, shrink_to_fit, storage_t moves","inc/ptl/vector.hpp")],VEC_STATE,["size()","capacity()","operator[]"])
p("V03","Vector elements live exactly as long as they are in the vector",
  "Every element a vector creates (also temporarily) is created in storage that holds no live element, is only used while alive, and is destroyed exactly once; at any quiet point exactly size() elements are alive in the buffer, every buffer is released exactly once, only after its elements are gone, and no access leaves live memory. This holds along every sequence of operations.",
  ["histories","inputs"],"every sequence of operations on vectors of a lifetime-tracked element type",
  "Tests use int elements and no leak or lifetime checker.",
  ["vector.hpp"],[("destroy_n / uninitialized_* pairing, set_size","inc/ptl/vector.hpp")],VEC_STATE,["constructors and destructors of the element type","allocation and release"])
p("V04","A failing vector operation throws and leaves the vector as it was",
  "When an allocation fails, when copying or constructing any element throws, or when a requested size exceeds max_size (any count up to the largest size_t), every vector operation reports it by exception (bad_alloc, the element's exception, length_error) instead of terminating or corrupting memory. Afterwards the vector holds the same elements as before, no element or buffer is leaked or destroyed twice, and the vector remains usable.",
  ["fault_sequences","inputs"],"failure at every allocation and at every element copy or construction, every size and spare capacity, every count up to 2^64-1",
  "No test makes an allocation or an element copy fail.",
  ["vector.hpp"],[("construct new elements first, commit with non-throwing moves","inc/ptl/vector.hpp")],VEC_STATE,["exceptions","size()","element lifetimes"])
p("V05","Inserting or assigning a vector's own elements works like using copies",
  "When the value or range given to push_back, emplace, insert, assign or resize refers to elements of the very vector being modified, the result is the same as if independent copies had been passed, with or without reallocation.",
  ["inputs"],"every size, spare capacity, source element or sub-range, position and count",
  "No test passes an argument that aliases the vector.",
  ["vector.hpp"],[("construct behind the end then rotate; old buffer kept alive until commit","inc/ptl/vector.hpp")],VEC_STATE,["operator[]"])
p("V06","Vector and array comparisons are lexicographic",
  "==, !=, <, <=, > and >= on vectors, and on arrays, are exactly element-wise equality and lexicographic order (with the shorter vector first when it is a prefix), hence consistent with each other and a total order when the elements have one; capacity plays no role.",
  ["inputs"],"all pairs of element sequences and sizes",
  "Tests compare a few constants for equality and hardly any order.",
  ["vector.hpp","array.hpp"],[("comparison operators","inc/ptl/vector.hpp"),("comparison operators","inc/ptl/array.hpp")],(),["operators"])

# ---------------------------------------------------------------- bitset
p("B01","Bitset modification acts on exactly the addressed bits",
  "set, reset and flip (all bits or one index), indexing, test, at, get and ~, &, |, ^ with their assigning forms and swap change or read exactly the bits the per-bit definition says, for every bitset size (also sizes that are no multiple of 8, and zero) and every index; indices not below the size make the checked operations throw out_of_range and change nothing. No operation ever makes bits beyond the size observable through count, all, any, ==, hash or later shifts.",
  ["inputs"],"all bit patterns, sizes from 0 to beyond 64, all 64-bit indices",
  "Tests use size 10 and a few patterns.",
  ["bitset.hpp"],[("byte-wise operations with masking of trailing bits","inc/ptl/bitset.hpp")],[("bits","packed little-endian bit array, unused trailing bits are zero","inc/ptl/bitset.hpp values")],["test()","count()","=="])
p("B02","Bitset shifts move every bit by exactly the count",
  "Shifting left or right by n, in place or not, moves every bit by exactly n positions, fills with zeros and drops what leaves the bitset, for every bitset size and every count; counts at or beyond the size give the empty bitset, promptly even for counts up to the largest size_t.",
  ["inputs"],"all bit patterns, sizes, and shift counts up to 2^64-1",
  "Tests shift a single set bit of a 10-bit set by five different counts.",
  ["bitset.hpp"],[("operator<<=, operator>>=","inc/ptl/bitset.hpp")],(),["test()"])
p("B03","Bitset queries, equality, hash and integer construction agree with the bits",
  "count, all, any, none, explicit bool, size, == and != give exactly the number, presence and equality of set bits for every size; construction from an integer sets exactly the bits of the integer below the size; equal bitsets have equal hashes.",
  ["inputs"],"all bit patterns, all sizes, all 64-bit integers",
  "Tests look at fewer than ten patterns of a 10-bit set.",
  ["bitset.hpp"],[("count table, all_of/any_of, hash","inc/ptl/bitset.hpp")],(),["count()","all()","any()","none()","std::hash"])
p("B04","Bitset text output and input round-trip",
  "Writing a bitset yields exactly size characters '0'/'1', most significant bit first, and reading that text back gives the same bits. Reading consumes at most size characters '0'/'1' and stops before the first other character or at the end of input, giving the bits read so far as the low bits; the stream fails exactly when no bit could be read (the bitset is then unchanged).",
  ["inputs"],"all bit patterns, sizes and input texts",
  "Tests read three fixed strings that are exactly as long as the bitset.",
  ["bitset.hpp"],[("stream operators","inc/ptl/bitset.hpp")],(),["stream content","stream state"])
p("B05","A bit reference acts on its own bit only",
  "Reading, assigning (from bool or another bit reference), flipping and complementing through a bit reference, and swapping two bit references, also references into different bitsets with equal or different positions, read or change exactly the referenced bits.",
  ["inputs"],"all bit patterns, all pairs of positions, same or different bitsets",
  "No test swaps or copies bit references.",
  ["bitset.hpp"],[("bitset::reference","inc/ptl/bitset.hpp")],(),["operator[]","swap"])

# ---------------------------------------------------------------- optional
p("O01","optional holds exactly the value last put in, or none",
  "After any construction, copy, move, assignment (value, optional, nullopt), emplace, reset or swap, each optional involved is engaged exactly when the operation says so and then holds exactly that value; self-assignment and self-swap change nothing, copies are independent, and moving from an engaged optional leaves it engaged. has_value, bool conversion, *, ->, value (throwing bad_optional_access exactly when empty) and value_or agree with that state.",
  ["histories","inputs"],"all pairs of engaged/empty states and values, all operations and sequences of them",
  "Tests run a few fixed transitions on int and float.",
  ["optional.hpp"],[("assignment operators, emplace, reset, swap","inc/ptl/optional.hpp")],[("engaged flag","whether a value is alive","inc/ptl/optional.hpp initialized")],["has_value()","value()"])
p("O02","optional manages the lifetime of its value, also under exceptions",
  "The contained value is alive exactly while the optional is engaged: never constructed over a live value, never used or destroyed when not alive, destroyed exactly once. When constructing or assigning the value throws, the exception reaches the caller, an empty optional stays empty, an engaged one stays engaged with a live value (the old one for emplace), and nothing leaks.",
  ["histories","fault_sequences"],"all operation sequences on a lifetime-tracked value type, with a failure at any copy or construction",
  "Tests use trivial types; nothing throws.",
  ["optional.hpp"],[("construct before setting the flag, destroy before clearing it","inc/ptl/optional.hpp")],[("engaged flag","whether a value is alive","inc/ptl/optional.hpp initialized")],["value type's constructors and destructor"])
p("O03","optional comparisons order empty before every value",
  "==, !=, <, <=, > and >= between optionals, between an optional and nullopt, and between an optional and a value (either side) are those of the order in which an empty optional equals another empty one and precedes every value, and two engaged optionals compare as their values.",
  ["inputs"],"all pairs of states and values, all operators, both argument orders",
  "Tests evaluate six of the comparisons with constants and none against nullopt or values.",
  ["optional.hpp"],[("30 hand-written comparison operators","inc/ptl/optional.hpp")],(),["operators"])
p("O04","optional_ref refers to exactly the given object or to none",
  "An optional_ref built from an object or from an engaged optional-like (ptl or std optional, pointer, another optional_ref) is engaged and designates that very object, so reads see and writes change it; built from an empty one, nullopt or nothing it is empty. bool conversion, has_value, *, ->, value (throwing bad_optional_access exactly when empty), value_or and copies agree with that.",
  ["inputs"],"all states and values of the source",
  "Tests use fixed constants.",
  ["optional_ref.hpp"],[("pointer representation","inc/ptl/optional_ref.hpp")],(),["operator*","value()"])

# ---------------------------------------------------------------- variant
p("W01","variant always holds exactly the alternative last stored",
  "After any construction (default, value, in-place by type or index), copy, move, assignment (variant or value, same or different alternative), emplace or swap, each variant holds exactly the alternative and value the operation implies; self-assignment and self-swap change nothing and copies are independent. holds, get_if, get (throwing bad_variant_access exactly for alternatives not held) and visit (calling the visitor once, with that alternative, its value category and constness, and returning its result) agree with that state.",
  ["histories","inputs"],"all pairs of alternatives and values, all operations and sequences of them",
  "Tests run a handful of fixed int/double transitions.",
  ["variant.hpp"],[("type index and dispatch tables","inc/ptl/variant.hpp")],[("type","index of the active alternative","inc/ptl/variant.hpp type")],["holds()","get()","visit()"])
p("W02","variant manages the lifetime of its alternative, also under exceptions",
  "Exactly the active alternative is alive at any time: it is never constructed over a live object, never used or destroyed while not alive, and destroyed exactly once. When copying or constructing an alternative throws during construction, assignment or emplace, the exception reaches the caller, the variant keeps its previous alternative and value, and nothing leaks.",
  ["histories","fault_sequences"],"all operation sequences over lifetime-tracked alternatives, with a failure at any copy or construction",
  "Tests use trivial types; nothing throws.",
  ["variant.hpp"],[("build a temporary first, then destroy and move","inc/ptl/variant.hpp")],[("type","index of the active alternative","inc/ptl/variant.hpp type")],["alternatives' constructors and destructors"])
p("W03","variant comparisons order by alternative, then by value",
  "==, !=, <, <=, > and >= between variants are those of the order that ranks an earlier-declared alternative before a later one and compares equal alternatives by their values, each operator by the values' own corresponding operator.",
  ["inputs"],"all pairs of alternatives and values, all operators",
  "Tests evaluate a few of the operators on constants and none of <= and >=.",
  ["variant.hpp"],[("comparison operators","inc/ptl/variant.hpp")],(),["operators"])
p("W04","variant_ref refers to exactly the object it was bound to",
  "A variant_ref bound to an object (also as const, also via copy construction and assignment) reports exactly that object's type, and holds, get_if, get (throwing bad_variant_access exactly for other types) and visit (one visitor or several, result returned) designate that very object with its constness; writes through it reach the object and rebinding by assignment never modifies the referenced objects.",
  ["inputs","histories"],"all alternatives, all pairs for copy and assignment, all values",
  "Tests use two fixed types and constants.",
  ["variant_ref.hpp"],[("pointer plus type index, dispatch tables","inc/ptl/variant_ref.hpp")],(),["get()","visit()"])

# ---------------------------------------------------------------- array, tuple, function_ref
p("A01","array and tuple store, expose and exchange their elements faithfully",
  "Constructing an array or tuple stores each argument in its position (missing array elements are value-initialised); copying, assigning, fill and swap give exactly the expected elements on both sides; indexing, get, structured bindings, front, back, data and forward and reverse iteration expose them in order, and at throws out_of_range for exactly the indices not below the size. Tuple comparisons are lexicographic in element order.",
  ["inputs"],"all element values, all indices, sizes including 0 and 1",
  "Tests use fixed constants.",
  ["array.hpp","tuple.hpp"],[("aggregate storage","inc/ptl/array.hpp"),("recursive packed storage","inc/ptl/tuple.hpp")],(),["operator[]","get","operators"])
p("A02","array and tuple manage their elements' lifetimes, also under exceptions",
  "Every element of an array or tuple is constructed exactly once, alive as long as the array or tuple, and destroyed exactly once, whatever is constructed, copied, moved, assigned, filled and swapped in between. When an element's construction or copy throws, the exception reaches the caller, the elements already constructed are destroyed and nothing leaks, sources keep their values, and an assigned or filled array or tuple consists of live elements and stays usable.",
  ["histories","fault_sequences"],"all operations and their sequences over lifetime-tracked elements, with a failure at any construction or copy of an element",
  "Tests use integers; nothing throws and no destruction is observed.",
  ["array.hpp","tuple.hpp"],[("member array, implicit special members, fill, swap","inc/ptl/array.hpp"),("recursive storage, swap","inc/ptl/tuple.hpp")],(),["elements' constructors and destructors"])
p("F01","function_ref calls exactly the referenced callable",
  "Invoking a function_ref calls exactly the function or function object it was last bound to (by construction, copy or assignment) once, with exactly the given arguments (references stay references to the caller's objects, rvalues are moved), with the constness of the signature, and returns exactly its result; results returned by reference designate the object the callable returned. State changes of the callable happen in the referenced object, and copies refer to the same callable.",
  ["inputs","histories"],"all argument values, all kinds of callables (function, function pointer, mutable and const function objects, lambdas) and signatures (const, noexcept, void, value, reference)",
  "Tests call three callables with constants and none returning a reference.",
  ["function_ref.hpp"],[("type-erased pointer plus dispatch function","inc/ptl/function_ref.hpp")],(),["operator()"])

# ---------------------------------------------------------------- ABI
p("L01","The binary representation of every type is the published stable layout",
  "The size and the object bytes of every type are the fixed layout: optional is the value followed by a flag byte 0/1 without padding; variant is the alternatives' union (largest size) followed by the index byte; bitset packs bit i into bit i%8 of byte i/8 with unused bits zero; array is its elements; tuple packs its elements without padding, last element first; string_ref and array_ref are a begin and an end pointer; optional_ref is one pointer; variant_ref is a pointer followed by a pointer-sized index; function_ref is an object pointer followed by a call-thunk pointer. A string is a deallocator pointer (null for inline storage) followed by either a size byte, the characters and NUL in place (up to 22), or by buffer pointer, capacity and size; a vector is deallocator, buffer pointer, capacity, size. This holds for every value, after every kind of operation.",
  ["inputs","histories"],"all values and states of each type",
  "The tests contain five static size checks of optional; no test looks at object bytes.",
  ["string.hpp","vector.hpp","optional.hpp","variant.hpp","bitset.hpp","array.hpp","tuple.hpp","string_ref.hpp","array_ref.hpp","optional_ref.hpp","variant_ref.hpp","function_ref.hpp"],
  [("packed structs and unions, member order","inc/ptl/*.hpp")],(),["sizeof","object representation"])
p("L02","Memory is always released by the deallocator stored in the object",
  "A string or vector whose buffer and deallocator were provided by another module (same binary layout, different allocator) is read, modified, moved, swapped, assigned over, shrunk and destroyed correctly here, and its buffer is released exactly once, through the deallocator stored with it and never through another one, and not before its contents were taken over. Buffers allocated here are released by the deallocator stored when they were allocated, wherever the object has been moved or swapped to.",
  ["histories","configurations"],"all operations on all pairs of objects whose buffers come from different modules",
  "A test binary has a single allocator, so pairing a buffer with the wrong deallocator goes unnoticed.",
  ["string.hpp","vector.hpp"],[("deallocator pointer carried along with the buffer","inc/ptl/string.hpp"),("deallocator pointer carried along with the buffer","inc/ptl/vector.hpp")],STR_STATE[:1]+VEC_STATE,["calls of the stored deallocator"])
p("I01","Container and view iterators obey the random-access iterator laws",
  "For the mutable and const iterators of array, array_ref, string, string_ref and vector: ++, --, +=, -=, +, -, [] and ->, * move by and designate exactly the expected positions, the difference of two iterators is the distance of their positions, pre- and postfix forms return the new and the old position, and ==, !=, <, <=, >, >= order iterators by position. Conversion to the const iterator keeps the position, and a default-constructed iterator is usable for assignment and comparison with another default-constructed one.",
  ["inputs"],"all pairs of positions and offsets within the range, all five iterator kinds, const and mutable",
  "Tests only advance begin() and compare a few iterators for equality.",
  ["array.hpp","array_ref.hpp","string.hpp","string_ref.hpp","vector.hpp"],[("contiguous_iterator in each container","inc/ptl/*.hpp")],(),["iterator operators"])
p("R01","Operations that only read write nothing, so objects can be shared by threads",
  "Every operation that only reads (all operations of const objects, element access and iteration, comparisons, hashing, output, reading the source of a copy) writes neither to the object nor to memory it owns or refers to nor to state shared by all objects, not even temporarily or the same value again. Hence any number of threads can read or copy one object at the same time, and different objects can be used independently, without synchronisation.",
  ["schedules","inputs"],"every reading operation, in every state of the objects, against every other operation that runs at the same time",
  "Tests run on one thread, and a write of the same value or a restored one shows in no result.",
  ["string.hpp","string_ref.hpp","vector.hpp","bitset.hpp","array.hpp","array_ref.hpp","tuple.hpp","optional.hpp","optional_ref.hpp","variant.hpp","variant_ref.hpp","function_ref.hpp"],[("const member functions, no mutable members, no static state","inc/ptl/*.hpp")],(),["stores to shared memory"])
p("M01","Values handed over as rvalues and relocated values are moved, never copied",
  "A value given as an rvalue to a constructor, an assignment, emplace, push_back, insert, value_or, a visit (visitors included) or a call, or taken out of an rvalue with *, value, get or value_or, arrives intact without a single copy; the same goes for every value that moves along: move construction, move assignment and swap of the objects holding it, growth, reserve, shrink_to_fit, insertion and erasure of its neighbours. Moving or swapping a whole vector or heap string hands over the buffer itself, and no element is touched.",
  ["inputs","histories"],"all operations that receive or relocate values, in every state of the objects, at every position",
  "A needless copy gives the same value, so no test that compares values can see it.",
  ["vector.hpp","optional.hpp","optional_ref.hpp","variant.hpp","variant_ref.hpp","array.hpp","tuple.hpp","function_ref.hpp","string.hpp"],[("std::forward and std::move of arguments, uninitialized_move of elements","inc/ptl/*.hpp")],(),["number of copies of elements","data() after a move"])
# ---------------------------------------------------------------- not decided here
p("N01","Object representations agree between all supported compilers",
  "Objects created by code built with any conformant C++17 compiler for a platform have the representation that code built with any other one expects.",
  ["configurations"],"all pairs of compilers and compiler versions",
  "The tests are built by one compiler.",
  ["string.hpp","vector.hpp","optional.hpp","variant.hpp","bitset.hpp"],[("standard-layout, packed types","inc/ptl/*.hpp")],(),["object representation"])
p("N02","Operations marked constexpr are usable in constant expressions",
  "Every operation offered as constexpr can be evaluated at compile time with the same result as at run time, for every literal element type.",
  ["programs"],"all constant expressions using the operations",
  "The tests evaluate hardly anything at compile time.",
  ["array.hpp","array_ref.hpp","bitset.hpp","string_ref.hpp","optional_ref.hpp","variant_ref.hpp"],[("constexpr annotations","inc/ptl/*.hpp")],(),["compile-time evaluation"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
for x in P:
    assert len(x["title"])<=80, x["id"]
    if x["statement"].count(". ")>2: print("long:", x["id"])
