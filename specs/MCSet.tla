-------------------------------- MODULE MCSet --------------------------------
EXTENDS SetObj, Json

CONSTANTS Items, MaxLen
VARIABLE op

MCInit == SlotsInit /\ op = "init"
Small == \A o \in Slot : Len(st[o].v) <= MaxLen

Next ==
  \/ SlotOps(op)
  \/ \E o \in Slot :
     \/ \E x \in Items :
        \/ Add(o, <<x>>) /\ op' = "set " \o SlotS(o) \o " " \o T(x)
        \/ Remove(o, Key(x)) /\ op' \in {"rem " \o SlotS(o) \o " " \o T(Key(x)), "remo " \o SlotS(o) \o " " \o T(Key(x))}
        \/ Look(o) /\ op' = "has " \o SlotS(o) \o " " \o T(Key(x))
        \/ \E y \in Items : x < y /\ Look(o) /\ op' = "has " \o SlotS(o) \o " " \o T(Key(x)) \o " " \o T(Key(y))
     \/ \E p \in Slot :
        \/ Union(o, p) /\ op' = "uni " \o SlotS(o) \o " " \o SlotS(p)
        \/ Inter(o, p) /\ op' = "int " \o SlotS(o) \o " " \o SlotS(p)
        \/ Diff(o, p) /\ op' = "dif " \o SlotS(o) \o " " \o SlotS(p)
        \/ Look2(o, p) /\ op' = "cmp " \o SlotS(o) \o " " \o SlotS(p)
        \/ \E q \in Slot :
           \/ PUnion(o, p, q) /\ op' = "puni " \o SlotS(o) \o " " \o SlotS(p) \o " " \o SlotS(q)
           \/ PInter(o, p, q) /\ op' = "pint " \o SlotS(o) \o " " \o SlotS(p) \o " " \o SlotS(q)
           \/ PDiff(o, p, q) /\ op' = "pdif " \o SlotS(o) \o " " \o SlotS(p) \o " " \o SlotS(q)

Spec == MCInit /\ [][Next]_<<st, op>>
View == st
EdgeOut == Small' => PrintT(<<"EDGE", ToJson(st), op', ToJson(st')>>)
=============================================================================
