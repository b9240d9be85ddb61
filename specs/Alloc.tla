-------------------------------- MODULE Alloc --------------------------------
(* Allocators (hal/malloc_*.h) as clients see them.                                              *)
(* st[o] is an allocator: [k kind, n, bs, al, min, inc, nb] (geometry as given at creation) and np, *)
(* the number of pools of each bucket (a pooled allocator is a single bucket), or NoAlloc;          *)
(* held is the set of blocks clients hold:                                                          *)
(*   [h handle, o allocator, a address <<high, low>>, s size, al alignment, b bucket].              *)
(* bulk[o] are blocks clients took by the thousand: [q their addresses in order, s, al, b].         *)
(* Kinds: "pool" (MemoryPool), "mpool" (MallocPool), "pooled" (MallocPooled), "binned", "ansi".    *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANT Slots
Slot == 1..Slots

VARIABLES st, held, bulk
NoAlloc == [k |-> "none"]
NoBulk == [q |-> <<>>, s |-> 0, al |-> 1, b |-> 0]
NoBulks == [o \in Slot |-> NoBulk]
AllocInit == st = [o \in Slot |-> NoAlloc] /\ held = {} /\ bulk = NoBulks

(* ------------------------------------------------------------------ addresses *)
Half == 16777216        \* an address is high * 2^24 + low
Plus(a, n)   == LET s == a[2] + n IN <<a[1] + s \div Half, s % Half>>
Leq(a, b)    == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Disjoint(x, y) == Leq(Plus(x.a, x.s), y.a) \/ Leq(Plus(y.a, y.s), x.a)
AlignedTo(a, n) == a[2] % n = 0
Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y

(* ------------------------------------------------------------------ geometry *)
Word == 8
Live(o)    == st[o].k # "none"
Of(o)      == { b \in held : b.o = o }
RECURSIVE Pow(_, _)
Pow(x, n)  == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
Largest(g) == CASE g.k \in {"pool", "mpool", "pooled"} -> g.bs
                [] g.k = "binned" -> g.min * Pow(g.inc, g.nb - 1)
                [] OTHER -> 1000000000
Alignment(g) == IF g.k = "ansi" THEN 65536 ELSE Max2(g.al, Word)
Fixed(g)   == g.k \in {"pool", "mpool"}
Many(o)    == Len(bulk[o].q)
Free(o)    == st[o].n - Cardinality(Of(o)) - Many(o)              \* of a fixed pool

(* can a request be served *)
Fits(o, size, al) == size <= Largest(st[o]) /\ al <= Alignment(st[o])
Serves(o, size, al) == Fits(o, size, al) /\ (Fixed(st[o]) => Free(o) > 0)

(* a returned block is usable: aligned, and disjoint from all others *)
Apart(b, o) == \A j \in DOMAIN bulk[o].q : Disjoint(b, [a |-> bulk[o].q[j], s |-> bulk[o].s])
Usable(b, others) == AlignedTo(b.a, b.al) /\ (\A c \in others : Disjoint(b, c)) /\ (\A o \in Slot : Apart(b, o)) = TRUE

(* growing allocators: the bucket that serves a size (the one with the smallest blocks that are large *)
(* enough), the number of blocks in each of its pools                                                  *)
Grows(g)      == g.k \in {"pooled", "binned"}
BlockSize(g, i) == IF g.k = "binned" THEN g.min * Pow(g.inc, i - 1) ELSE g.bs
Bucket(g, size) == IF g.k # "binned" THEN 1 ELSE CHOOSE i \in 1..g.nb : size <= BlockSize(g, i) /\ \A j \in 1..(i - 1) : size > BlockSize(g, j)
PerPool(g, i)  == IF g.k = "binned" THEN g.n \div BlockSize(g, i) ELSE g.n
(* more memory is taken only when every block of the pools of the bucket is held *)
Grown(g, i, nHeld, more) == [g EXCEPT !.np[i] = Max2(@, (nHeld + more + PerPool(g, i) - 1) \div PerPool(g, i))]
InBucket(o, i) == { b \in Of(o) : b.b = i }
NumIn(o, i) == Cardinality(InBucket(o, i)) + (IF bulk[o].b = i THEN Many(o) ELSE 0)
After(o, i, more) == IF Grows(st[o]) THEN [st EXCEPT ![o] = Grown(@, i, NumIn(o, i), more)] ELSE st
AfterAlloc(o, i) == After(o, i, 1)
(* serving the request takes memory from the system *)
TakesMemory(o, size) == \/ st[o].k = "ansi"
                        \/ Grows(st[o]) /\ LET i == Bucket(st[o], size) IN NumIn(o, i) = st[o].np[i] * PerPool(st[o], i)
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE q[1] + Total(Tail(q))

(* ------------------------------------------------------------------ actions *)
New(o, g) == ~Live(o) /\ st' = [st EXCEPT ![o] = g] /\ UNCHANGED <<held, bulk>>
Delete(o) == Live(o)      \* clients let go of their blocks with the allocator
             /\ st' = [st EXCEPT ![o] = NoAlloc] /\ held' = held \ Of(o) /\ bulk' = [bulk EXCEPT ![o] = NoBulk]
Handle(h) == CHOOSE b \in held : b.h = h
IsHeld(h) == \E b \in held : b.h = h
NewBlock(o, h, size, al, a, i) == [h |-> h, o |-> o, a |-> a, s |-> size, al |-> al, b |-> i]

AllocOk(o, h, size, al, a) ==
    /\ Live(o) /\ ~IsHeld(h) /\ Serves(o, size, al)
    /\ LET i == Bucket(st[o], size)
           b == NewBlock(o, h, size, al, a, i)
       IN  Usable(b, held) /\ held' = held \cup {b} /\ st' = AfterAlloc(o, i) /\ UNCHANGED bulk
(* refused: too large, too strictly aligned, no block left, or (dry) the system has no memory to give *)
AllocFails(o, h, size, al, dry) ==
    Live(o) /\ ~IsHeld(h) /\ (~Serves(o, size, al) \/ (dry /\ Fits(o, size, al) /\ TakesMemory(o, size))) /\ UNCHANGED <<st, held, bulk>>
Release(o, h) == Live(o) /\ IsHeld(h) /\ Handle(h).o = o /\ held' = held \ {Handle(h)} /\ UNCHANGED <<st, bulk>>

(* resizing a held block: the first bytes are kept, exactly one of the two blocks is held afterwards *)
ReallocOk(o, h, size, al, a, kept) ==
    /\ Live(o) /\ IsHeld(h) /\ Handle(h).o = o /\ size > 0 /\ Fits(o, size, al)
    /\ LET old == Handle(h)
           i   == IF a = old.a THEN old.b ELSE Bucket(st[o], size)     \* in place, or moved
           b   == NewBlock(o, h, size, al, a, i)
       IN  /\ Usable(b, held \ {old})
           /\ kept >= Min2(old.s, size)
           /\ held' = (held \ {old}) \cup {b}
           /\ IF a = old.a THEN size <= BlockSize(st[o], i) \/ st[o].k = "ansi" ELSE TRUE
           /\ st' = IF a = old.a THEN st ELSE AfterAlloc(o, i)
           /\ UNCHANGED bulk
ReallocFails(o, h, size, al, dry) ==      \* the block stays held (and intact)
    /\ Live(o) /\ IsHeld(h) /\ size > 0
    /\ \/ ~Fits(o, size, al)
       \/ dry /\ Fits(o, size, al) /\ TakesMemory(o, size) /\ (Grows(st[o]) => size > BlockSize(st[o], Handle(h).b))
    /\ UNCHANGED <<st, held, bulk>>

(* the same request again and again, until it is refused or max blocks are held; q is where all the *)
(* blocks held in bulk now are, was which of them were held before                                   *)
FillUp(o, size, al, max, q, was, dry) ==
    /\ Live(o) /\ (Many(o) > 0 => size = bulk[o].s /\ al = bulk[o].al)
    /\ LET i   == IF Fits(o, size, al) THEN Bucket(st[o], size) ELSE 0
           n   == IF ~Fits(o, size, al) THEN 0 ELSE IF Fixed(st[o]) THEN Min2(max, Free(o)) ELSE IF ~dry THEN max
                  ELSE IF st[o].k = "ansi" THEN 0 ELSE Min2(max, st[o].np[i] * PerPool(st[o], i) - NumIn(o, i))
           old == bulk[o].q
       IN  /\ Len(q) = Len(old) + n
           /\ (\A j \in DOMAIN q : AlignedTo(q[j], al)) = TRUE
           /\ (\A j \in 1..(Len(q) - 1) : Leq(Plus(q[j], Max2(size, 1)), q[j + 1])) = TRUE
           /\ Len(was) = Len(old) /\ (\A j \in DOMAIN old : was[j] \in DOMAIN q /\ q[was[j]] = old[j]) = TRUE
           /\ (\A b \in held : \A j \in DOMAIN q : Disjoint(b, [a |-> q[j], s |-> size])) = TRUE
           /\ (\A x \in Slot \ {o} : \A j \in DOMAIN bulk[x].q, k \in DOMAIN q :
                    Disjoint([a |-> bulk[x].q[j], s |-> bulk[x].s], [a |-> q[k], s |-> size])) = TRUE
           /\ bulk' = IF q = <<>> THEN bulk ELSE [bulk EXCEPT ![o] = [q |-> q, s |-> size, al |-> al, b |-> i]]
           /\ st' = IF n = 0 THEN st ELSE After(o, i, n)
           /\ UNCHANGED held
(* every m-th of the blocks held in bulk goes back *)
Kept(q, m) == LET n == Len(q) - ((Len(q) + m - 1) \div m)     \* those at 1, 1 + m, 1 + 2m, ... leave
              IN  [j \in 1..n |-> q[((j - 1) \div (m - 1)) * m + ((j - 1) % (m - 1)) + 2]]
BulkFree(o, m) ==
    /\ Live(o) /\ Many(o) > 0 /\ m > 0
    /\ bulk' = [bulk EXCEPT ![o] = IF m = 1 \/ Many(o) = 1 THEN NoBulk ELSE [@ EXCEPT !.q = Kept(@, m)]]
    /\ UNCHANGED <<st, held>>

(* ------------------------------------------------------------------ what holds in every state *)
AllDisjoint == \A b, c \in held : b # c => Disjoint(b, c)
AllAligned  == \A b \in held : AlignedTo(b.a, b.al)
WithinCapacity == \A o \in Slot : Live(o) =>
    CASE Fixed(st[o])        -> Cardinality(Of(o)) + Many(o) <= st[o].n
      [] Grows(st[o])        -> \A i \in DOMAIN st[o].np : NumIn(o, i) <= st[o].np[i] * PerPool(st[o], i)
      [] OTHER               -> TRUE
=============================================================================
