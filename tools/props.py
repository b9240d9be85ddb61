#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
P = "src/korin/core/public/"
Q = "src/korin/core/private/"
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    print(json.dumps({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                    "mechanism": [{"name": a, "where": b} for a, b in mech],
                    "observe_at": observe, "hook_needed": None}}))

p("C01", "Array behaves as a mathematical sequence",
  "After any history of constructing, inserting at any position (one or several items), removing, popping, copying, moving, assigning, clearing and resetting, an array reports exactly the count, indexed contents and forward and backward iteration order of the mathematical sequence obtained by the same operations. Elements an operation does not name keep their value and relative order, also when the storage grows, and for element types with non-trivial copy, move and destruction. A copy is independent of its source; a moved-from array is empty. Every element lies where the alignment of its type allows.",
  ["histories", "inputs"], "all operation histories over several arrays, all insertion/removal positions and counts, trivial and non-trivial element types",
  "one unit test runs a single fixed sequence, mostly on int elements",
  [P+"containers/array.h", P+"generic/generic_platform_memory.h"],
  [("resizeIfNecessary / moveElements / constructCopyElements", "containers/array.h, generic/generic_platform_memory.h")],
  ["Array public methods: getCount, operator[], begin/end, return values"],
  [("buffer,capacity,count", "contiguous storage, its size and the number of live items", "containers/array.h")])

p("C02", "Elements are constructed and destroyed exactly once",
  "Every element a container or holder (array, list, tree, set, map, optional, tuple, callable wrapper) brings to life is destroyed exactly once, no later than the container's own destruction. No operation reads, assigns or destroys an element that is not alive, and between calls the number of living elements is exactly the number the containers report to hold. Moving or copying a container never leaves an element owned twice or by nobody.",
  ["histories", "inputs"], "all operation histories over several containers of element types with observable construction, copy, move and destruction",
  "the tests use trivially destructible elements almost everywhere and never count lifetimes",
  [P+"containers/array.h", P+"containers/list.h", P+"containers/tree.h", P+"containers/map.h", P+"containers/set.h", P+"templates/optional.h", P+"templates/function.h", P+"containers/tuple.h", P+"generic/generic_platform_memory.h"],
  [("destroyElements / constructCopyElements / node destruction / storage unions", "generic_platform_memory.h, list.h, tree.h, optional.h, function.h")],
  ["constructor, copy, move, assignment and destructor calls of the element type supplied by the user"])

p("C03", "String content operations are exact and terminated",
  "A string is a finite character sequence: construction, append, concatenation (of strings, characters, C strings and numbers), indexing, substring, splice, character and range operations and formatted printing yield exactly the characters the operation denotes. The reported length always equals the number of characters, the character data is always followed by a terminator within its own storage, and operands that are not assigned to are left unchanged. Comparison between strings is the lexicographic order of the contents, with equality exactly on equal contents.",
  ["inputs", "histories"], "all contents and lengths (including empty, self-append, very long output, and contents that hold the terminator character, which only comparison and printing read as C strings), all positions, all operation histories",
  "tests compare a few fixed short strings",
  [P+"containers/string.h", P+"generic/generic_platform_strings.h", P+"containers/array.h"],
  [("appendString/appendFormat/splice/substr", "containers/string.h"), ("cmp/length", "generic/generic_platform_strings.h")],
  ["String public methods, operator*, getLength"],
  [("array", "characters plus terminator", "containers/string.h")])

p("C04", "String search and replace find exactly the occurrences",
  "Searching a string for a character, a C string or another string from any start position returns the first position at or after the start at which the pattern really occurs, and reports absence exactly when there is none. Replacing all occurrences rewrites every non-overlapping occurrence found left to right and nothing else, for replacements shorter than, equal to or longer than the pattern; an empty pattern replaces nothing. Listing all occurrences reports every position of the pattern, overlapping ones included, in ascending order.",
  ["inputs"], "all texts, patterns, start positions and replacements (including overlapping, adjacent, prefix/suffix and whole-text occurrences)",
  "a handful of fixed texts; overlapping and boundary occurrences are not sampled",
  [P+"containers/string.h", P+"generic/generic_platform_strings.h"],
  [("findIndex/replaceAll/splice", "containers/string.h")],
  ["String search and replace methods"])

p("C05", "List is a doubly linked sequence consistent both ways",
  "After any history of pushes, pops, insertions, removals by link or iterator, copies, moves and assignments, a list reports exactly the length and contents of the corresponding sequence. Walking from the first link forward and from the last link backward visits the same elements in mirrored order and stops exactly at the ends. Items handed over as rvalues are moved in, others are left as they were. Removing one link never disturbs the other links, and a copy is independent of its source.",
  ["histories"], "all histories of list operations over several lists and all positions",
  "one fixed sequence of pushes and pops; backward links are never walked after removals",
  [P+"containers/list.h"],
  [("Link insert/remove, List push/pop/remove/assign", "containers/list.h")],
  ["List and Link public interface"],
  [("head,tail,length", "list ends and size", "containers/list.h"), ("next,prev", "links", "containers/list.h")])

p("C06", "Tree is an ordered collection with exact navigation",
  "After any history of inserts, removals, copies, moves, assignments and clears, a tree holds exactly the inserted-and-not-removed items in ascending order of its comparator. Forward and backward traversal, first/last, successor and predecessor links, lower and upper bound searches and exact lookup all agree with that ordered collection, and a copy is independent of its source. Removal takes out exactly the designated item and never disturbs others. Nodes used on their own, without a tree object around them, obey the same rules.",
  ["histories", "inputs"], "all histories of insert/remove/copy/assign and all key orders including duplicates",
  "the test inserts a few random keys and checks the size and in-order values only",
  [P+"containers/tree.h"],
  [("BinaryNode insert/remove/threading, BinaryTree copy", "containers/tree.h")],
  ["BinaryTree, BinaryNode public methods and iterators"],
  [("root,parent,left,right,prev,next,color", "node links", "containers/tree.h")])

p("C07", "Tree stays balanced after every update",
  "After every insertion and removal in any order the search tree satisfies the red-black balance rules: the root is black, no red node has a red child, and every path from the root to a missing child crosses the same number of black nodes. Parent and child links are mutually consistent and the depth never exceeds twice the logarithm of the size plus one.",
  ["histories"], "all orders of insertions and removals",
  "no test looks at the shape of the tree; ordered or adversarial histories are not sampled",
  [P+"containers/tree.h"],
  [("repairInserted/repairRemoved/rotations", "containers/tree.h")],
  ["tree node links and colours"])

p("C08", "Set implements set algebra",
  "A set contains each value at most once; insertion, removal, membership, iteration order and size agree with a mathematical set after any history. Union, intersection, difference, inclusion tests and equality produce the mathematically defined result in both their pure and in-place forms, and the pure forms leave the operands unchanged.",
  ["inputs", "histories"], "all pairs of sets (empty, disjoint, nested, equal, overlapping) and all update histories",
  "tests use two fixed sets",
  [P+"containers/set.h", P+"containers/tree.h"],
  [("set operators over tree iteration", "containers/set.h")],
  ["Set public methods and operators"])

p("C09", "Map is a function from keys to latest values",
  "After any history of insertions, indexed writes, removals, pops, copies and assignments, a map holds for each key exactly the value the last operation on that key gave it, and nothing for absent keys. Lookup, membership, size and ascending-key iteration agree with that function and lookups do not change it; a copy is independent of its source.",
  ["histories"], "all histories of map operations over several maps and keys",
  "one fixed sequence with few keys",
  [P+"containers/map.h", P+"containers/pair.h", P+"containers/tree.h"],
  [("operator[]/insert/remove/pop/find", "containers/map.h")],
  ["Map public methods and iterators"])

p("C10", "Containers return all storage to the allocator that gave it",
  "Every block of storage a container obtains from its allocator, default or user supplied, is given back to that same allocator exactly once, no later than the container's destruction. A container bound to a user-supplied allocator never takes element storage from anywhere else, and after a move the storage is returned to the allocator it came from.",
  ["histories", "configurations"], "all operation histories of all containers with shared, per-container and owned allocators",
  "tests never count allocations against releases",
  [P+"hal/malloc_object.h", P+"containers/array.h", P+"containers/list.h", P+"containers/tree.h", P+"containers/set.h", P+"containers/map.h", P+"containers/string.h"],
  [("MallocObject, container destructors and moves", "hal/malloc_object.h and containers")],
  ["calls the containers make to a recording allocator"])

p("C11", "Sorting yields an ordered permutation",
  "Sorting any range leaves a permutation of the original items that is ordered by the given comparator, whatever the initial order and however many items are equal. The sort that also carries an index array permutes both arrays in step, so each index still designates the item it was paired with. Partitioning moves every item smaller than the pivot before all others and reports where the others begin. Nothing outside the range is touched.",
  ["inputs"], "all input permutations, multiplicities, sizes (including empty and single) and comparators",
  "only a benchmark exercises sorting; no test checks the result",
  [P+"algorithm/sort.h"],
  [("quicksort, partition, argquicksort", "algorithm/sort.h")],
  ["the sorted range and the memory around it"])

p("C12", "Optional tracks engagement and value exactly",
  "An optional is at any time either disengaged or holds exactly one value. Construction, assignment from a value or from another optional (copied or moved, engaged or not), disengagement, in-place construction, swapping, extraction of the value and boolean tests follow that state exactly; the value read is the value last stored, engaged copies are independent of their source, and a value that is no longer held has been destroyed.",
  ["histories"], "all histories of operations over several optionals, for trivial and non-trivial values",
  "a single test covers a few transitions with simple values",
  [P+"templates/optional.h"],
  [("Optional state union and engaged flag", "templates/optional.h")],
  ["Optional public methods"])

p("C13", "Callable wrapper invokes what it was given, copy or move",
  "A callable wrapper bound to a function, a function pointer or a functor (small or large, with or without state, also one that calls a method of an object) invokes exactly that target with the given arguments and returns its result, every time it is called. Copies own an independent copy of the functor and its state, moves transfer it and leave the source unbound, and the wrapped functor lives until the wrapper that owns it is destroyed or rebound. Wrappers report truthfully whether they are bound.",
  ["histories", "inputs"], "all histories of binding, copying, moving, assigning and invoking, for small and large stateful functors",
  "no unit test exercises the wrapper directly",
  [P+"templates/function.h"],
  [("FunctionBase storage, invocation, copy/move", "templates/function.h")],
  ["Function public interface and side effects of the wrapped target"])

p("C14", "Atomic operations are indivisible under any schedule",
  "Every read-modify-write on an atomic object takes effect exactly once at a single point between its call and its return, for integers and pointers of every supported width. No update is lost or duplicated under any interleaving of threads, each operation returns the value its documentation defines (the old or the new one), arithmetic on atomic pointers counts elements like ordinary pointer arithmetic, and sequentially consistent loads and stores of several objects are seen by all threads in one common order.",
  ["schedules", "histories"], "all interleavings of any number of threads performing any mix of operations",
  "the test runs one schedule of one operation kind",
  [P+"templates/atomic.h", P+"unix/unix_platform_atomics.h", P+"generic/generic_platform_atomics.h"],
  [("fetch-and-op and exchange builtins, memory orders of load and store", "unix/unix_platform_atomics.h"), ("Atomic class templates", "templates/atomic.h")],
  ["return values of atomic operations and final values"])

p("C15", "Allocators hand out disjoint, aligned, usable blocks",
  "A block returned by any allocator (system, pool, pooled, binned, typed) is aligned as requested, spans at least the requested number of bytes, and does not overlap any other block currently held by a client. Writing to every byte of every held block never disturbs another block or the allocator's own bookkeeping. A request no larger and no more strictly aligned than the allocator's largest block is served while blocks are left; when it cannot be served the allocator says so instead of returning unusable memory, and a freed block can be handed out again.",
  ["histories", "configurations"], "all interleavings of allocations and releases in any order, all block sizes, counts and alignments, all pool geometries",
  "tests allocate and free in one order with one geometry and rarely write the blocks",
  [P+"hal/malloc_pool.h", Q+"hal/malloc_pool.cpp", P+"hal/malloc_binned.h", Q+"hal/malloc_binned.cpp", Q+"hal/malloc_ansi.cpp", P+"hal/malloc_object.h"],
  [("free list threading, pool directory", "hal/malloc_pool.*"), ("bucket selection", "hal/malloc_binned.*")],
  ["addresses returned by alloc, contents of held blocks"],
  [("MemoryPool free list", "intrusive list of free blocks", "hal/malloc_pool.h")])

p("C16", "Pool accounting matches what clients hold",
  "At any time the numbers of used, free and total blocks, the emptiness and exhaustion tests, capacity and ownership queries of a memory pool agree with the set of blocks clients currently hold. A fixed pool serves exactly its capacity before refusing and serves again after a release; a growing pool keeps serving, hands released blocks out again before it takes more memory, and returns all its memory when it is destroyed.",
  ["histories", "configurations"], "all histories of allocations and releases for all pool geometries",
  "tests check a single fill/drain in allocation order",
  [P+"hal/malloc_pool.h", Q+"hal/malloc_pool.cpp"],
  [("block counters, pool list, ownership lookup", "hal/malloc_pool.*")],
  ["counters and ownership queries of the pool allocators"])

p("C17", "Reallocation preserves contents and ownership",
  "Resizing a block keeps its first bytes, up to the smaller of the old and new size, returns memory that satisfies the new size and alignment, and after the call exactly one of the old and new block is held. Resizing nothing allocates and resizing to nothing releases. A failed resize leaves the original block held and intact.",
  ["histories", "inputs"], "all block sizes before and after, all alignments, all mixes with other live blocks, all allocators",
  "tests hardly call it and never verify contents around other live blocks",
  [Q+"hal/malloc_ansi.cpp", Q+"hal/malloc_pool.cpp", Q+"hal/malloc_binned.cpp", P+"hal/malloc_object.h"],
  [("realloc implementations", "hal/*.cpp")],
  ["block contents before and after realloc"])

p("C18", "Regex accepts exactly the language of its pattern",
  "For every supported pattern (literals, any-character, classes and escapes, ranges, groups, alternation, greedy and counted quantifiers, anchors and boundaries) matching a string succeeds exactly when the whole string belongs to the language the pattern denotes. The verdict does not depend on how the pattern is nested or factored.",
  ["inputs"], "all patterns of the supported grammar and all strings",
  "tests sample a few dozen pattern/string pairs with little nesting",
  [P+"regex/regex.h", P+"regex/automaton.h", P+"regex/executor.h", P+"regex/state.h", Q+"regex/regex.cpp"],
  [("pattern compiler", "private/regex/regex.cpp"), ("automaton construction", "regex/automaton.h"), ("backtracking executor", "regex/executor.h")],
  ["match verdict of the Regex interface"])

p("C19", "Regex matching is total, contained and repeatable",
  "Every match terminates, never reads outside the terminated string it is given, and leaves the compiled pattern unchanged, so repeating it or interleaving it with other strings and patterns gives the same verdict. Compiling and destroying any number of patterns in any order, including malformed ones, neither crashes nor disturbs other compiled patterns.",
  ["inputs", "histories"], "all patterns including malformed ones, all strings, all interleavings of compilations and matches",
  "tests match each pattern a few times and never observe reads past the end",
  [P+"regex/automaton.h", P+"regex/executor.h", P+"regex/state.h", Q+"regex/regex.cpp"],
  [("executor search, state ownership", "regex/executor.h, regex/automaton.h")],
  ["termination, memory reads and verdict of repeated matches"])

p("C20", "Vectors obey component-wise algebra exactly",
  "For 2-, 3- and 4-component vectors of any arithmetic type every operator (with vectors and with scalars on either side, in pure and compound form, also when an operand is the vector itself or one of its components), dot and cross product, squared length, negation, comparison mask and operator, conversion between component types and numbers of components, and component access by index, name and array return exactly the value defined component-wise whenever the arithmetic is exact. Compound forms agree with pure forms, pure forms leave operands unchanged, the length is the root of the squared length, normalising keeps the direction, and the SIMD operations agree with the generic ones.",
  ["inputs"], "all components for which the arithmetic is exact, for integer and floating vectors",
  "tests check a few fixed vectors and not every operator",
  [P+"math/vec2.h", P+"math/vec3.h", P+"math/vec4.h", P+"math/simd_float.h"],
  [("operators and specialisations", "math/vec*.h")],
  ["Vec operators"])

p("C21", "Quaternions compose rotations exactly, matrices keep their elements",
  "The product of quaternions is the Hamilton product, so that rotating a vector by a product equals rotating in turn, the default quaternion changes nothing, the inverse undoes a rotation, rotated axes and direction vectors are the rotated unit vectors, and the angle and axis a quaternion is made from are those read back. A 4x4 matrix holds exactly the elements it was made from in row-major order whichever way they are read or written, transposition exchanges element (i, j) with (j, i) and nothing else and is its own inverse, and the comparison mask has exactly the bits of the equal elements, the matrices being equal when all are.",
  ["inputs", "histories"], "all operands for which the arithmetic is exact, in particular all rotations by multiples of 90 and 120 degrees that permute the axes; all matrices",
  "tests check one or two quaternion products; matrices are not tested at all",
  [P+"math/quat.h", P+"math/mat4.h"],
  [("operator*, operator-, axes", "math/quat.h"), ("element access, cmp, transpose", "math/mat4.h")],
  ["Quat and Mat4 operators"])

p("C22", "Integer math and memory helpers are exact on their whole domain",
  "Minimum, maximum (of any number of values), absolute value, integer power and integer logarithm return exactly their mathematical value for every argument whose result is representable, in every integer width and sign. Aligning down to a power of two returns the largest multiple not above the argument and aligning up the smallest multiple strictly above it, as documented. Copying, moving (with any overlap) and comparing memory ranges act on exactly the given bytes, comparison reports the sign of the first difference, and the helpers constructing, copying, moving and destroying arrays of elements treat every element of the range exactly once, in any overlap the documentation allows, and nothing outside it.",
  ["inputs", "histories"], "all arguments in the domain of each helper, boundary values around powers of two in particular; all ranges and overlaps",
  "tests sample a few values of each helper",
  [P+"generic/generic_platform_math.h", P+"generic/generic_platform_memory.h", P+"unix/unix_platform_memory.h", P+"templates/utility.h"],
  [("math helpers", "generic/generic_platform_math.h"), ("memory helpers", "generic/generic_platform_memory.h, hal/platform_memory.h")],
  ["return values of the helpers", "contents of the ranges"])

p("C23", "Pairs and tuples store and compare component-wise",
  "A pair or tuple returns for each position exactly the value stored there, by construction, copy, move, assignment or write through an accessor, without affecting other positions, and copies are independent. Comparing pairs orders them by their keys only, as the documentation of the comparator states, and equality and order operators are mutually consistent.",
  ["inputs", "histories"], "all component values and types (with repeated types), all histories of copies and writes",
  "tuple is not tested and pairs only as map entries",
  [P+"containers/pair.h", P+"containers/tuple.h"],
  [("recursive tuple storage, pair comparators", "containers/pair.h, containers/tuple.h")],
  ["Pair and Tuple public interface"])

p("C24", "Fixed arrays and compile-time names keep exact contents",
  "A fixed-size array yields exactly the elements stored at each index, by construction, write or copy, and copies element-wise and independently whether its source is constant or not. Compile-time names render exactly their characters and length, and any number of names concatenates to exactly their characters in order followed by a terminator.",
  ["inputs", "histories"], "all sizes, contents and concatenations",
  "neither has a unit test",
  [P+"templates/array.h", P+"templates/name.h"],
  [("StaticArray storage", "templates/array.h"), ("Name concatenation", "templates/name.h")],
  ["StaticArray and Name public interface"])

p("C25", "Floating-point helpers are accurate to rounding",
  "Square root, trigonometry, logarithms, vector length and normalisation and rotation by arbitrary angles return the correctly rounded real result within a few units in the last place over their whole domain.",
  ["inputs"], "all representable floating-point arguments",
  "tests compare a few values with a tolerance",
  [P+"generic/generic_platform_math.h", P+"math/vec3.h", P+"math/quat.h"],
  [("math library wrappers", "generic/generic_platform_math.h")],
  ["return values"])

p("C26", "Type queries, casts and comparators mean what the language says",
  "For every type, however nested from a basic type by qualifiers, pointers, references, arrays and functions, the compile-time queries (same type, pointer, pointer to a type, reference, volatile, array, function, void, integral for unqualified types) are true exactly for the types they name, and the transformations (removing one or all pointers, references, qualifiers or an extent, adding a pointer, the naked and decayed type, choosing, enabling) give exactly the type they denote. The queries about construction, copying, assignment, destruction and inheritance of classes agree with how the class and its parts are written. move and forward give their argument back in the value category of an rvalue or of the named type, swap exchanges two values of any movable type, and the default comparators return -1, 0 or 1 as the values (or what pointers to constants point to) compare, respectively always 0.",
  ["inputs"], "all types up to a nesting depth, all classes with any user-written special members, bases and members, all values",
  "no unit test covers the type queries; the containers and allocators only use a few of them",
  [P+"templates/types.h", P+"templates/base.h", P+"templates/enable_if.h", P+"templates/utility.h", P+"templates/functional.h", P+"templates/type_info.h"],
  [("partial specialisations of the type queries", "templates/types.h"), ("move, forward, swap", "templates/utility.h"), ("NullCompare, ThreeWayCompare", "templates/functional.h")],
  ["values and types given by the class templates", "return values of the helpers"])
