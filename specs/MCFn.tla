-------------------------------- MODULE MCFn ---------------------------------
EXTENDS Fn, Json

CONSTANTS Kinds, Bases, MaxCalls
VARIABLE op

MCInit == FnInit /\ op = "init"
Small == \A o \in Slot : (st[o].v # <<>> => st[o].v[3] <= MaxCalls) /\ \A j \in 1..3 : ob[j] <= MaxCalls
Sp(o, w) == w \o " " \o SlotS(o)
Next ==
  \E o \in Slot :
     \/ New(o) /\ UNCHANGED ob /\ op' = Sp(o, "new")
     \/ Delete(o) /\ UNCHANGED ob /\ op' = Sp(o, "delete")
     \/ Query(o) /\ UNCHANGED ob /\ op' = Sp(o, "query")
     \/ Call(o) /\ op' \in {Sp(o, "call") \o " 3", Sp(o, "ccall") \o " 4"}
     \/ \E k \in Kinds : \E b \in Bases :
        \/ Bind(o, k, b) /\ op' = Sp(o, "bind") \o " " \o T(k) \o " " \o T(b)
        \/ Rebind(o, k, b) /\ op' = Sp(o, "rebind") \o " " \o T(k) \o " " \o T(b)
     \/ \E p \in Slot :
        \/ Copy(o, p) /\ UNCHANGED ob /\ op' \in {Sp(o, "copy") \o " " \o SlotS(p), Sp(o, "copync") \o " " \o SlotS(p)}
        \/ Move(o, p) /\ UNCHANGED ob /\ op' = Sp(o, "move") \o " " \o SlotS(p)
        \/ Set(o, p) /\ op' = Sp(o, "assign") \o " " \o SlotS(p)
        \/ MoveAssign(o, p) /\ UNCHANGED ob /\ op' = Sp(o, "massign") \o " " \o SlotS(p)
Spec == MCInit /\ [][Next]_<<st, ob, op>>
View == <<st, ob>>
EdgeOut == Small' => PrintT(<<"EDGE", ToJson(View), op', ToJson(View')>>)
=============================================================================
