-------------------------------- MODULE Tup ----------------------------------
(* Pairs and tuples (containers/pair.h, containers/tuple.h): a fixed-length sequence of independent
   positions. A pair is ordered by its first position (through the key comparator) only. *)
EXTENDS Slots

Make(o, xs)    == NewFrom(o, xs)
Write(o, i, x) == IsLive(o) /\ i \in 0..(Len(Val(o)) - 1) /\ Put(o, SetAtSeq(Val(o), i, x))
Look2(o, p)    == IsLive(o) /\ IsLive(p) /\ UNCHANGED st

Sgn(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
KeyOf(s, div) == s[1] \div div
Cmp(s, t, div) == Sgn(KeyOf(s, div), KeyOf(t, div))
=============================================================================
