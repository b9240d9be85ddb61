------------------------------- MODULE Array --------------------------------
(* Dynamic arrays (containers/array.h): a handful of array objects, each of which is a finite
   sequence. One action per public operation. *)
EXTENDS Slots

(* NewFrom also stands for the capacity, buffer and static array constructors *)
(* insertion *)
Insert(o, i, xs)   == IsLive(o) /\ i \in 0..Len(Val(o)) /\ Put(o, InsertAtSeq(Val(o), i, xs))
\* beyond the end: the places in between are there, and hold nothing yet (the binding writes 0 into them)
InsertFar(o, i, xs) == IsLive(o) /\ i \in Nat /\ i >= Len(Val(o)) /\ Put(o, Val(o) \o [k \in 1..(i - Len(Val(o))) |-> 0] \o xs)
InsertFirst(o, xs) == IsLive(o) /\ Put(o, xs \o Val(o))
InsertLast(o, xs)  == IsLive(o) /\ Put(o, Val(o) \o xs)
(* items of the array itself, by position *)
Own(o, is)          == [k \in DOMAIN is |-> At(Val(o), is[k])]
InsertOwn(o, i, is) == IsLive(o) /\ (\A k \in DOMAIN is : is[k] \in 0..(Len(Val(o)) - 1)) /\ Insert(o, i, Own(o, is))
(* element access *)
Write(o, i, x)  == IsLive(o) /\ i \in 0..(Len(Val(o)) - 1) /\ Put(o, SetAtSeq(Val(o), i, x))
(* operator(): access that grows the array; fill is what the caller writes in the new cells before idx *)
Grow(o, i, fill, x) ==
    /\ IsLive(o)
    /\ LET s == Val(o) n == Len(s) IN
         IF i < n THEN Put(o, SetAtSeq(s, i, x))
         ELSE Put(o, s \o [j \in 1..(i - n) |-> fill] \o <<x>>)
GetOrInit(o, i, x) ==                               \* operator()(idx, init), idx <= count
    /\ IsLive(o) /\ i \in 0..Len(Val(o))
    /\ IF i < Len(Val(o)) THEN UNCHANGED st ELSE Put(o, Append(Val(o), x))
(* removal *)
Remove(o, i, n) == IsLive(o) /\ n >= 0 /\ i + n <= Len(Val(o)) /\ i >= 0 /\ Put(o, RemoveAtSeq(Val(o), i, n))
Pop(o, i)       == IsLive(o) /\ i \in 0..(Len(Val(o)) - 1) /\ Put(o, RemoveAtSeq(Val(o), i, 1))

TypeOK == SlotsTypeOK
=============================================================================
