-------------------------------- MODULE List ---------------------------------
(* Doubly linked lists (containers/list.h). *)
EXTENDS Slots

NewRange(o, xs)  == NewFrom(o, xs)                       \* iterator range constructor
PushBack(o, xs)  == IsLive(o) /\ Put(o, Val(o) \o xs)
PushFront(o, xs) == IsLive(o) /\ Put(o, Reverse(xs) \o Val(o))
(* an item of the list itself *)
PushOwn(o, i, back) == IsLive(o) /\ i \in 0..(Len(Val(o)) - 1) /\ (IF back THEN PushBack(o, <<Val(o)[i + 1]>>) ELSE PushFront(o, <<Val(o)[i + 1]>>))
Write(o, i, x)   == IsLive(o) /\ i \in 0..(Len(Val(o)) - 1) /\ Put(o, SetAtSeq(Val(o), i, x))
RemoveLink(o, i) == IsLive(o) /\ i \in 0..(Len(Val(o)) - 1) /\ Put(o, RemoveAtSeq(Val(o), i, 1))
RemoveEnd(o)     == IsLive(o) /\ UNCHANGED st            \* removing the end iterator does nothing
(* removal at the ends: reports whether there was an element *)
RemoveBack(o)    == IsLive(o) /\ Put(o, IF Val(o) = <<>> THEN <<>> ELSE SubSeq(Val(o), 1, Len(Val(o)) - 1))
RemoveFront(o)   == IsLive(o) /\ Put(o, IF Val(o) = <<>> THEN <<>> ELSE Tail(Val(o)))

Drain(o, n)      == IsLive(o) /\ n <= Len(Val(o)) /\ Put(o, SubSeq(Val(o), n + 1, Len(Val(o))))   \* n removals at the front

RECURSIVE Arrow(_)
Arrow(s) == IF Len(s) = 1 THEN ToString(s[1]) ELSE ToString(s[1]) \o "-> " \o Arrow(Tail(s))
Shown(s) == IF s = <<>> THEN "[]" ELSE "[ " \o Arrow(s) \o " ]"

(* The linked representation: what walking the links must show *)
ForwardWalk(s)  == s
BackwardWalk(s) == Reverse(s)
=============================================================================
