------------------------------- MODULE MapObj --------------------------------
(* Maps (containers/map.h): a finite function from keys to values. The observable value of a map object
   is its graph as a sequence of <<key, value>> in the order of the key comparator (descending if Rev). *)
EXTENDS Slots

CONSTANT Rev

KLt(a, b) == IF Rev THEN a > b ELSE a < b
Dom(s)    == {s[j][1] : j \in DOMAIN s}
Of(s, k)  == (CHOOSE j \in DOMAIN s : s[j][1] = k)
Ap(s, k)  == s[Of(s, k)][2]
Pairs(s, k) == SelectSeq(s, LAMBDA p : p[1] = k)
Set(s, k, v) ==
    IF k \in Dom(s) THEN [s EXCEPT ![Of(s, k)] = <<k, v>>]
    ELSE LET before == SelectSeq(s, LAMBDA p : KLt(p[1], k)) IN InsertAtSeq(s, Len(before), <<(<<k, v>>)>>)
Unset(s, k) == SelectSeq(s, LAMBDA p : p[1] # k)

Insert(o, k, v)  == IsLive(o) /\ Put(o, Set(Val(o), k, v))     \* also the indexed write
Index(o, k)      == IsLive(o) /\ Put(o, IF k \in Dom(Val(o)) THEN Val(o) ELSE Set(Val(o), k, 0))
WriteIt(o, k, v) == IsLive(o) /\ Put(o, IF k \in Dom(Val(o)) THEN Set(Val(o), k, v) ELSE Val(o))
Remove(o, k)     == IsLive(o) /\ Put(o, Unset(Val(o), k))
RemoveAt(o, i)   == IsLive(o) /\ i \in 0..(Len(Val(o)) - 1) /\ Put(o, RemoveAtSeq(Val(o), i, 1))
(* many at once, in any order *)
Bulk(o, n)       == IsLive(o) /\ Val(o) = <<>> /\ Put(o, [j \in 1..n |-> IF Rev THEN <<n + 1 - j, ((n + 1 - j) * 7) % 1000>> ELSE <<j, (j * 7) % 1000>>])
BulkRemove(o, m) == IsLive(o) /\ Put(o, SelectSeq(Val(o), LAMBDA x : x[1] % m # 0))
Look(o)          == IsLive(o) /\ UNCHANGED st

IsFunction(s) == \A j \in 1..(Len(s) - 1) : KLt(s[j][1], s[j + 1][1])
TypeOK == SlotsTypeOK /\ \A o \in Slot : IsFunction(st[o].v)
=============================================================================
