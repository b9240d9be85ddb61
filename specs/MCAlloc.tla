------------------------------- MODULE MCAlloc -------------------------------
(* Pools as the library builds them: every pool threads its free blocks on a list (the block released   *)
(* last is handed out first); a growing allocator keeps its pools on a ring whose head has free blocks  *)
(* if any pool has. Checked: this refines Alloc (every concrete step is an abstract one), blocks are    *)
(* never in two places, no block is lost, and exhausted pools only follow pools with free blocks.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Kind,      \* "pool", "mpool" or "pooled"
          N, BS, AL, NP, \* geometry of every pool, initial number of pools
          Sizes, Aligns, \* requests
          MaxPools, Handles, Resize
VARIABLES ring, free, cl, op
vars == <<ring, free, cl, op>>

Pools == 1..MaxPools
Stride == ((BS + 8 + AL - 1) \div AL) * AL
Base(p) == p * 16 * Stride * (N + 1)           \* pools never overlap
Address(p, i) == <<0, Base(p) + (i - 1) * Stride>>
AllBlocks == [j \in 1..N |-> j]
Held == DOMAIN cl
St  == [o \in 1..1 |-> [k |-> Kind, n |-> N, bs |-> BS, al |-> AL, np |-> <<Len(ring)>>, min |-> 1, inc |-> 1, nb |-> 1]]
HeldBlocks == { [h |-> h, o |-> 1, a |-> Address(cl[h].p, cl[h].i), s |-> cl[h].s, al |-> cl[h].al, b |-> 1] : h \in Held }
A == INSTANCE Alloc WITH Slots <- 1, st <- St, held <- HeldBlocks, bulk <- << [q |-> <<>>, s |-> 0, al |-> 1, b |-> 0] >>

Init == ring = [j \in 1..NP |-> NP + 1 - j] /\ free = [p \in Pools |-> AllBlocks] /\ cl = [h \in {} |-> 0] /\ op = "init"

T(x) == ToString(x)
Rot(s) == Tail(s) \o <<Head(s)>>
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
Holds(h, v) == [x \in Held \cup {h} |-> IF x = h THEN v ELSE cl[x]]

Served(size, al) == size <= BS /\ al <= (IF AL > 8 THEN AL ELSE 8)
Alloc(h, size, al) ==
    /\ h \notin Held /\ op' = "alloc 0 " \o T(h) \o " " \o T(size) \o " " \o T(al)
    /\ IF ~Served(size, al) THEN UNCHANGED <<ring, free, cl>>
       ELSE IF Kind = "pooled"
       THEN LET grow == ring = <<>> \/ free[Head(ring)] = <<>>
                new  == Len(ring) + 1
                r    == IF grow THEN <<new>> \o ring ELSE ring
                p    == Head(r)
            IN  /\ (grow => new \in Pools)
                /\ free' = [free EXCEPT ![p] = Tail(@)]
                /\ cl' = Holds(h, [p |-> p, i |-> Head(free[p]), s |-> size, al |-> al])
                /\ ring' = IF Len(free[p]) = 1 THEN Rot(r) ELSE r
       ELSE IF free[1] = <<>> THEN UNCHANGED <<ring, free, cl>>
       ELSE /\ free' = [free EXCEPT ![1] = Tail(@)] /\ UNCHANGED ring
            /\ cl' = Holds(h, [p |-> 1, i |-> Head(free[1]), s |-> size, al |-> al])
Release(h) ==
    /\ h \in Held /\ op' = "free 0 " \o T(h)
    /\ LET p == cl[h].p IN
         /\ free' = [free EXCEPT ![p] = <<cl[h].i>> \o @]
         /\ ring' = IF Kind = "pooled" /\ free[p] = <<>> THEN <<p>> \o Without(ring, p) ELSE ring
    /\ cl' = [x \in Held \ {h} |-> cl[x]]
Realloc(h, size, al) ==
    /\ Resize /\ h \in Held /\ size > 0 /\ op' = "realloc 0 " \o T(h) \o " " \o T(size) \o " " \o T(al)
    /\ UNCHANGED <<ring, free>>
    /\ cl' = IF Served(size, al) THEN [cl EXCEPT ![h].s = size, ![h].al = al] ELSE cl

Next == \E h \in Handles : \/ Release(h)
                           \/ \E s \in Sizes, a \in Aligns : Alloc(h, s, a) \/ Realloc(h, s, a)
Spec == Init /\ [][Next]_vars

(* --------------------------------------------------------------- refinement *)
AStep == \E h \in Handles : \/ A!Release(1, h)
                            \/ \E s \in Sizes, a \in Aligns :
                                 \/ A!AllocFails(1, h, s, a, FALSE) \/ A!ReallocFails(1, h, s, a, FALSE)
                                 \/ \E p \in Pools, i \in 1..N : \/ A!AllocOk(1, h, s, a, Address(p, i))
                                                                 \/ A!ReallocOk(1, h, s, a, Address(p, i), IF h \in Held THEN cl[h].s ELSE 0)
Refines == [][AStep \/ UNCHANGED <<St, HeldBlocks>>]_vars
AbstractInvariants == A!AllDisjoint /\ A!AllAligned /\ A!WithinCapacity

(* --------------------------------------------------------------- structure *)
Range(s) == { s[j] : j \in DOMAIN s }
Blocks == Range(ring) \X (1..N)
Taken  == { <<cl[h].p, cl[h].i>> : h \in Held }
Avail  == UNION { { <<p, i>> : i \in Range(free[p]) } : p \in Range(ring) }
Partition == /\ Taken \cup Avail = Blocks /\ Taken \cap Avail = {}
             /\ Cardinality(Taken) = Cardinality(Held)                     \* no block held twice
             /\ \A p \in Range(ring) : Len(free[p]) = Cardinality(Range(free[p]))
RingOk == /\ Len(ring) = Cardinality(Range(ring)) /\ Range(ring) = 1..Len(ring)
          /\ \A j, k \in DOMAIN ring : j < k /\ free[ring[j]] = <<>> => free[ring[k]] = <<>>
GrowsLate == [][Len(ring') > Len(ring) => Cardinality(Held) = Len(ring) * N]_vars

EdgeOut == PrintT(<<"EDGE", ToJson(<<ring, free, cl>>), op', ToJson(<<ring', free', cl'>>)>>)
View == <<ring, free, cl>>
=============================================================================
