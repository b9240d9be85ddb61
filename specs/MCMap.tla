-------------------------------- MODULE MCMap --------------------------------
EXTENDS MapObj, Json

CONSTANTS KeySet, ValSet, MaxLen
VARIABLE op

MCInit == SlotsInit /\ op = "init"
Small == \A o \in Slot : Len(st[o].v) <= MaxLen

Next ==
  \/ SlotOps(op)
  \/ \E o \in Slot :
     \/ \E k \in KeySet :
        \/ \E v \in ValSet :
           \/ Insert(o, k, v) /\ op' \in {"ins " \o SlotS(o) \o " " \o T(k) \o " " \o T(v), "put " \o SlotS(o) \o " " \o T(k) \o " " \o T(v)}
           \/ WriteIt(o, k, v) /\ op' = "setit " \o SlotS(o) \o " " \o T(k) \o " " \o T(v)
        \/ Index(o, k) /\ op' = "idx " \o SlotS(o) \o " " \o T(k)
        \/ Remove(o, k) /\ op' \in {"rem " \o SlotS(o) \o " " \o T(k), "pop " \o SlotS(o) \o " " \o T(k)}
        \/ Look(o) /\ op' = "find " \o SlotS(o) \o " " \o T(k)
     \/ \E i \in 0..MaxLen : RemoveAt(o, i) /\ op' = "remit " \o SlotS(o) \o " " \o T(i)

Spec == MCInit /\ [][Next]_<<st, op>>
View == st
EdgeOut == Small' => PrintT(<<"EDGE", ToJson(st), op', ToJson(st')>>)
=============================================================================
