------------------------------- MODULE MCList --------------------------------
EXTENDS List, Json

CONSTANTS Items, MaxLen
VARIABLE op

MCInit == SlotsInit /\ op = "init"
Small == \A o \in Slot : Len(st[o].v) <= MaxLen

Next ==
  \/ SlotOps(op)
  \/ \E o \in Slot :
     \/ Clear(o) /\ op' = "empty " \o SlotS(o)
     \/ \E x \in Items :
        \/ PushBack(o, <<x>>) /\ op' = "pushback " \o SlotS(o) \o " " \o T(x)
        \/ PushFront(o, <<x>>) /\ op' = "pushfront " \o SlotS(o) \o " " \o T(x)
        \/ \E y \in Items :
           \/ NewRange(o, <<x, y>>) /\ op' = "newrange " \o SlotS(o) \o " " \o T(x) \o " " \o T(y)
           \/ PushBack(o, <<x, y>>) /\ op' = "pushback " \o SlotS(o) \o " " \o T(x) \o " " \o T(y)
           \/ PushFront(o, <<x, y>>) /\ op' = "pushfront " \o SlotS(o) \o " " \o T(x) \o " " \o T(y)
        \/ \E i \in 0..MaxLen : Write(o, i, x) /\ op' = "set " \o SlotS(o) \o " " \o T(i) \o " " \o T(x)
     \/ \E i \in 0..MaxLen : RemoveLink(o, i) /\ op' \in {"rem " \o SlotS(o) \o " " \o T(i), "remit " \o SlotS(o) \o " " \o T(i)}
     \/ RemoveEnd(o) /\ op' = "remend " \o SlotS(o)
     \/ RemoveBack(o) /\ op' \in {"remback " \o SlotS(o), "popback " \o SlotS(o)}
     \/ RemoveFront(o) /\ op' \in {"remfront " \o SlotS(o), "popfront " \o SlotS(o)}

Spec == MCInit /\ [][Next]_<<st, op>>
View == st
EdgeOut == Small' => PrintT(<<"EDGE", ToJson(st), op', ToJson(st')>>)
TypeOK == SlotsTypeOK
=============================================================================
