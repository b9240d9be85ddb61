-------------------------------- MODULE MCTup --------------------------------
EXTENDS Tup, Json

CONSTANTS Items, N
VARIABLE op

MCInit == SlotsInit /\ op = "init"
RECURSIVE Show(_)
Show(s) == IF s = <<>> THEN "" ELSE " " \o T(Head(s)) \o Show(Tail(s))

Next ==
  \E o \in Slot :
     \/ \E xs \in [1..N -> Items] : Make(o, xs) /\ op' = "make " \o SlotS(o) \o Show(xs)
     \/ Delete(o) /\ op' = "delete " \o SlotS(o)
     \/ \E i \in 0..(N - 1) : \E x \in Items : Write(o, i, x) /\ op' = "write " \o SlotS(o) \o " " \o T(i) \o " " \o T(x)
     \/ \E p \in Slot :
        \/ Look2(o, p) /\ op' = "cmp " \o SlotS(o) \o " " \o SlotS(p)
        \/ Copy(o, p) /\ op' = "copy " \o SlotS(o) \o " " \o SlotS(p)
        \/ Move(o, p) /\ op' = "move " \o SlotS(o) \o " " \o SlotS(p)
        \/ Assign(o, p) /\ op' = "assign " \o SlotS(o) \o " " \o SlotS(p)
        \/ MoveAssign(o, p) /\ op' = "massign " \o SlotS(o) \o " " \o SlotS(p)

Spec == MCInit /\ [][Next]_<<st, op>>
View == st
TypeOK == SlotsTypeOK
(* order laws on every reachable pair *)
Laws == \A o, p, q \in Slot : (IsLive(o) /\ IsLive(p) /\ IsLive(q)) =>
        /\ Cmp(Val(o), Val(p), 10) = -Cmp(Val(p), Val(o), 10)
        /\ (Cmp(Val(o), Val(p), 10) <= 0 /\ Cmp(Val(p), Val(q), 10) <= 0 => Cmp(Val(o), Val(q), 10) <= 0)
EdgeOut == PrintT(<<"EDGE", ToJson(st), op', ToJson(st')>>)
=============================================================================
