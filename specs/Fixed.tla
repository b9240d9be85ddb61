-------------------------------- MODULE Fixed --------------------------------
(* Arrays of fixed length (templates/array.h): n items, given by value, from a buffer or none; items that *)
(* are not given have the default value.                                                                  *)
EXTENDS Slots

Items(n, xs)   == [i \in 1..n |-> IF i <= Len(xs) THEN xs[i] ELSE 0]
Make(o, n, xs) == Len(xs) <= n /\ NewFrom(o, Items(n, xs))
Write(o, i, x) == IsLive(o) /\ i \in 0..(Len(Val(o)) - 1) /\ Put(o, SetAtSeq(Val(o), i, x))
Look(o)        == IsLive(o) /\ UNCHANGED st
=============================================================================
