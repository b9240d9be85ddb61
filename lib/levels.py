"""Technique, level and level note of every claimed property, and reasons for the others."""
MB = "TLA+ specification: TLC model checking, state-graph replay and trace validation"
BASE = ("TLC explores the specification exhaustively within small constants; every edge of that graph and further seeded random histories are "
        "replayed into the real code (ASan build) and TLC validates each recorded call, result and projected state. Assurance is bounded by the "
        "explored histories; trusts the harness projection and TLC. ")
S3 = "Histories of up to 3 objects; documented preconditions are respected; moved-from objects are only queried, move-assigned or destroyed. "
LEVELS = {
    "C01": (MB, "model_checking", BASE + S3),
    "C02": (MB, "model_checking", BASE + S3 + "Lifetimes are observed through the element type; the runs reuse the histories of the container checks."),
    "C03": (MB, "model_checking", BASE + S3 + "Character codes 1..127 (no embedded terminators)."),
    "C04": (MB, "model_checking", BASE + S3 + "Character codes 1..127; texts up to about 60 characters, all texts over two letters up to length 4 (quick) or 6 (thorough)."),
    "C05": (MB, "model_checking", BASE + S3),
    "C06": (MB, "model_checking", BASE + S3 + "Trees up to about 40 nodes."),
    "C07": (MB, "model_checking", BASE + "The shape is validated against the red-black invariants of the specification after every update, for all insertion/removal orders of a small key set and random larger histories."),
    "C08": (MB, "model_checking", BASE + S3),
    "C09": (MB, "model_checking", BASE + S3),
    "C10": (MB, "model_checking", BASE + S3 + "Storage is observed through recording allocators: the default one, three user-supplied ones and one owned by every container."),
    "C11": (MB, "model_checking", BASE + "The in-place algorithm itself is model checked over all sequences of up to 4 (thorough 5) items; the code is run on all sequences over three keys up to length 4 (thorough 6) and random ones up to 250 items, with six comparators."),
    "C12": (MB, "model_checking", BASE + S3),
    "C13": (MB, "model_checking", BASE + S3 + "Targets: plain functions, small, large and heap-held functors, references and methods called through functors; four signatures."),
    "C14": (MB, "model_checking", "TLC explores every interleaving of two or three threads on the specified object (limb arithmetic checked exhaustively on a small base). The real operations are preempted at every machine instruction of every pair of operations by the other threads (-O0 and -O2), and run by real threads; TLC accepts a recorded round only when some order of indivisible effects, respecting program order and call/return times, explains all results. Weak-memory behaviours are only those of the x86-64 machine the check runs on. "),
    "C15": (MB, "model_checking", BASE + "The pools' free lists and the ring of pools are modelled and shown to refine the abstract allocator; geometries up to 13 blocks per pool, 32 held blocks, two allocators at a time. Requests keep their documented preconditions (power-of-two alignments, non-zero sizes for the binned and system allocators)."),
    "C16": (MB, "model_checking", BASE + "The pools' free lists and the ring of pools are modelled and shown to refine the abstract allocator; geometries up to 13 blocks per pool, 32 held blocks, two allocators at a time."),
    "C17": (MB, "model_checking", BASE + "All allocators, resizes of untyped and typed blocks, with up to 32 other blocks held and compared byte for byte after every call."),
    "C18": (MB, "model_checking", "TLC explores the automaton construction and the matcher's search for all patterns of a small grammar (nesting depth 2, two letters, strings up to 2 or 3) and compares every verdict with the denotation of the pattern; every (pattern, string) pair is replayed into the real code. Random well-formed patterns over the whole syntax and automata put together with the builder are matched and TLC evaluates the denotation on each recorded pattern text. Character codes 1..127; lazy quantifiers, captures, back references and non-special escapes are not supported syntax. "),
    "C19": (MB, "model_checking", "TLC shows that the search makes progress in every step (and that it need not without its memory of visits). All texts up to 3 special characters, random malformed and well-formed patterns, loops around empty matches, strings up to 400 (thorough 1500) characters and up to 300 nested groups are compiled, matched, shown and destroyed in random histories of four patterns under ASan with CPU limits; TLC validates every verdict (malformed patterns: repeatable) and that all storage comes back. Counts are kept below 100 (what a pattern compiles to grows with them). "),
    "C20": (MB, "model_checking", BASE + "Vectors of 2 to 4 components over five element types. Arithmetic is specified where it is exact (floating-point components are multiples of 1/64; results that would be rounded are not generated), so rounding is not decided; lengths are checked where they are exact and directions to within 1/1024. Integer overflow and division by zero are not exercised. "),
    "C21": (MB, "model_checking", BASE + "Quaternions over Z[sqrt 2]/64, compared to within 2^-12: all 48 that permute the axes (laws of algebra and rotation model checked, all products replayed) and random ones with exact products; matrices of six element types. Rotations by other angles are not decided. "),
    "C22": (MB, "model_checking", BASE + "Integers of every width as sequences of limbs, whose arithmetic is model checked against that of TLC; all arguments of eight bits, all powers of two and their neighbours at every width, random ones otherwise; whole numbers only for floating-point types. Memory ranges of up to 64 bytes and 30 elements in long histories, and of up to 132000 bytes and 131000 elements in directed ones; elements of five kinds (with visible lifetimes, move-only, with an assignment of their own, plain). "),
    "C23": (MB, "model_checking", BASE + "Pairs and tuples of up to 4 components with repeated and mixed types."),
    "C24": (MB, "model_checking", BASE + "Fixed arrays of 1 to 13 items of six types. Names are made and concatenated by generated programs, read during compilation and at run time: all programs of up to three names over short strings (a random sample of them in the quick tier), random ones with up to 12 names of up to 300 bytes, zero bytes included. "),
    "C26": (MB, "model_checking", "TLC enumerates all types up to nesting depth 2 (thorough 3) over 21 basic types and up to 3 (4) over fewer, checks the laws of the transformations on them, and validates what a generated program reports for each of them, for random pairs of types, and for random classes (bases, members, virtual functions, user-written special members). Values are exchanged and compared for eight types. Qualified integral types, functions with qualifiers and classes made of parts with a move constructor they do not use are not decided. "),
}
NA = {
    "C25": "Numeric accuracy of floating-point results is outside what an explicit-state TLA+ model can decide: TLC has no real or floating-point arithmetic; the exact (integer-valued) part of the algebra is decided under C20-C22.",
}
