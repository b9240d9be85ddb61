-------------------------------- MODULE MCOpt --------------------------------
EXTENDS Opt, Json

CONSTANTS Items
VARIABLE op

MCInit == SlotsInit /\ op = "init"
Sp(o, w) == w \o " " \o SlotS(o)
Next ==
  \/ SlotOps(op)
  \/ \E o \in Slot :
     \/ Disengage(o) /\ op' = Sp(o, "diseng")
     \/ Take(o) /\ op' = Sp(o, "take")
     \/ \E x \in Items :
        \/ NewFrom(o, <<x>>) /\ op' = Sp(o, "newv") \o " " \o T(x)
        \/ Engage(o, x) /\ op' \in {Sp(o, "setv") \o " " \o T(x), Sp(o, "emplace") \o " " \o T(x)}
        \/ Rewrite(o, x) /\ op' = Sp(o, "write") \o " " \o T(x)
     \/ \E p \in Slot :
        \/ Copy(o, p) /\ op' = Sp(o, "copync") \o " " \o SlotS(p)
        \/ Set(o, p) /\ op' = Sp(o, "assign") \o " " \o SlotS(p)
        \/ o # p /\ Swap(o, p) /\ op' = Sp(o, "swap") \o " " \o SlotS(p)
Spec == MCInit /\ [][Next]_<<st, op>>
View == st
EdgeOut == PrintT(<<"EDGE", ToJson(st), op', ToJson(st')>>)
=============================================================================
