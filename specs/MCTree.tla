------------------------------- MODULE MCTree --------------------------------
EXTENDS Tree, Json

CONSTANTS Items, MaxLen
VARIABLE op

MCInit == SlotsInit /\ op = "init"
Small == \A o \in Slot : Len(st[o].v) <= MaxLen
(* a canonical order among equal items keeps the graph small; the trace specification does not have it *)
Canon(s) == \A j \in 1..(Len(s) - 1) : Key(s[j]) = Key(s[j + 1]) => s[j] <= s[j + 1]

Next ==
  \/ SlotOps(op)
  \/ \E o \in Slot :
     \/ Clear(o) /\ op' = "empty " \o SlotS(o)
     \/ \E x \in Items :
        \/ Insert(o, <<x>>) /\ op' = "ins " \o SlotS(o) \o " " \o T(x)
        \/ InsertUnique(o, <<x>>) /\ op' = "insu " \o SlotS(o) \o " " \o T(x)
        \/ Replace(o, <<x>>) /\ op' = "repl " \o SlotS(o) \o " " \o T(x)
        \/ RemoveKey(o, Key(x)) /\ op' = "remv " \o SlotS(o) \o " " \o T(Key(x))
        \/ Look(o) /\ op' = "find " \o SlotS(o) \o " " \o T(Key(x))
     \/ \E i \in 0..MaxLen : RemoveAt(o, i) /\ op' \in {"rem " \o SlotS(o) \o " " \o T(i), "remit " \o SlotS(o) \o " " \o T(i)}
     \/ RemoveEnd(o) /\ op' = "remend " \o SlotS(o)

GapsOK == \A o \in Slot : \A x \in Items : GapsAre(Val(o), x, Gaps(Val(o), x))
Spec == MCInit /\ [][Next]_<<st, op>>
View == st
Cons == Small /\ \A o \in Slot : Canon(st[o].v)
EdgeOut == Cons' => PrintT(<<"EDGE", ToJson(st), op', ToJson(st')>>)
=============================================================================
