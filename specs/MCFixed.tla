------------------------------- MODULE MCFixed -------------------------------
EXTENDS Fixed, Json

CONSTANTS Values, N
VARIABLE op

MCInit == SlotsInit /\ op = "init"
RECURSIVE Show(_)
Show(s) == IF s = <<>> THEN "" ELSE " " \o T(Head(s)) \o Show(Tail(s))
Two(o, p) == SlotS(o) \o " " \o SlotS(p)

Next ==
  \E o \in Slot :
     \/ Make(o, N, <<>>) /\ op' = "new " \o SlotS(o)
     \/ \E k \in 1..N : \E xs \in [1..k -> Values] : Make(o, N, xs) /\ op' = "make " \o SlotS(o) \o Show(xs)
     \/ \E xs \in [1..N -> Values], how \in {"buf ", "list "} : Make(o, N, xs) /\ op' = how \o SlotS(o) \o Show(xs)
     \/ Delete(o) /\ op' = "delete " \o SlotS(o)
     \/ \E i \in 0..(N - 1) : \E x \in Values : Write(o, i, x) /\ op' = "write " \o SlotS(o) \o " " \o T(i) \o " " \o T(x)
     \/ \E i \in 0..(N - 1) : Look(o) /\ op' = "read " \o SlotS(o) \o " " \o T(i)
     \/ \E p \in Slot :
        \/ Copy(o, p) /\ op' = "copy " \o Two(o, p)
        \/ Copy(o, p) /\ op' = "copync " \o Two(o, p)
        \/ Move(o, p) /\ op' = "move " \o Two(o, p)
        \/ Assign(o, p) /\ op' = "assign " \o Two(o, p)
        \/ Assign(o, p) /\ op' = "assignnc " \o Two(o, p)
        \/ MoveAssign(o, p) /\ op' = "massign " \o Two(o, p)

Spec == MCInit /\ [][Next]_<<st, op>>
View == st
TypeOK == SlotsTypeOK
Length == \A o \in Slot : IsLive(o) => Len(Val(o)) = N
EdgeOut == PrintT(<<"EDGE", ToJson(st), op', ToJson(st')>>)
=============================================================================
