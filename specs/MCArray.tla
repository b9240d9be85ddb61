------------------------------ MODULE MCArray -------------------------------
(* Exhaustive exploration of Array with small constants. op is the last operation, as a script line
   (hidden by the view); EdgeOut prints every edge of the state graph. *)
EXTENDS Array, Json

CONSTANTS Items, MaxLen
VARIABLE op

MCInit == SlotsInit /\ op = "init"
Small == \A o \in Slot : Len(st[o].v) <= MaxLen

Next ==
  \/ SlotOps(op)
  \/ \E o \in Slot :
     \/ \E x, y \in Items : NewFrom(o, <<x, y>>) /\ op' \in {"newcap " \o SlotS(o) \o " 1 " \o T(x) \o " " \o T(y),
                                                            "newbuf " \o SlotS(o) \o " 0 " \o T(x) \o " " \o T(y)}
     \/ Clear(o) /\ op' \in {"empty " \o SlotS(o), "clear " \o SlotS(o), "wipe " \o SlotS(o), "areset " \o SlotS(o)}
     \/ \E x \in Items :
        \/ InsertFirst(o, <<x>>) /\ op' = "insfirst " \o SlotS(o) \o " " \o T(x)
        \/ InsertLast(o, <<x>>) /\ op' = "inslast " \o SlotS(o) \o " " \o T(x)
        \/ \E y \in Items : InsertFirst(o, <<x, y>>) /\ op' = "insfirst " \o SlotS(o) \o " " \o T(x) \o " " \o T(y)
        \/ \E i \in 0..MaxLen :
           \/ Insert(o, i, <<x>>) /\ op' = "ins " \o SlotS(o) \o " " \o T(i) \o " " \o T(x)
           \/ Write(o, i, x) /\ op' = "set " \o SlotS(o) \o " " \o T(i) \o " " \o T(x)
           \/ GetOrInit(o, i, x) /\ op' = "getinit " \o SlotS(o) \o " " \o T(i) \o " " \o T(x)
           \/ \E y \in Items : Insert(o, i, <<x, y>>) /\ op' = "ins " \o SlotS(o) \o " " \o T(i) \o " " \o T(x) \o " " \o T(y)
     \/ \E i \in 0..MaxLen :
        \/ \E n \in 0..MaxLen : Remove(o, i, n) /\ op' = "rem " \o SlotS(o) \o " " \o T(i) \o " " \o T(n)
        \/ \E k \in 0..(MaxLen - 1) :
           \/ InsertOwn(o, i, <<k>>) /\ op' = "insown " \o SlotS(o) \o " " \o T(i) \o " " \o T(k)
           \/ \E j \in 0..(MaxLen - 1) : InsertOwn(o, i, <<k, j>>) /\ op' = "insown " \o SlotS(o) \o " " \o T(i) \o " " \o T(k) \o " " \o T(j)
        \/ Pop(o, i) /\ op' = "pop " \o SlotS(o) \o " " \o T(i)

Spec == MCInit /\ [][Next]_<<st, op>>
View == st
Key(s) == ToJson(s)
EdgeOut == Small' => PrintT(<<"EDGE", Key(st), op', Key(st')>>)
=============================================================================
