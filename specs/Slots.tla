-------------------------------- MODULE Slots --------------------------------
(* Value-semantics part shared by every container: a handful of object slots, each empty ("none"),
   holding a live object whose abstract contents is a sequence, or holding a moved-from object
   (which can be queried, assigned to by move, or destroyed). *)
EXTENDS SeqOps

CONSTANT Slots          \* number of object slots
VARIABLE st             \* st[o] = [k, v]: kind and contents

None    == [k |-> "none",  v |-> <<>>]
Live(s) == [k |-> "live",  v |-> s]
Moved   == [k |-> "moved", v |-> <<>>]
Slot    == 1..Slots
NoSlots == [o \in Slot |-> None]

SlotsInit == st = NoSlots

IsNone(o) == st[o].k = "none"
IsLive(o) == st[o].k = "live"
Val(o)    == st[o].v
Put(o, s) == st' = [st EXCEPT ![o] = Live(s)]
Total(s)  == SumSeq([o \in Slot |-> Len(s[o].v)])

New(o)           == IsNone(o) /\ Put(o, <<>>)
NewFrom(o, s)    == IsNone(o) /\ Put(o, s)
Copy(o, p)       == IsNone(o) /\ IsLive(p) /\ Put(o, Val(p))
Move(o, p)       == IsNone(o) /\ IsLive(p) /\ st' = [st EXCEPT ![o] = Live(Val(p)), ![p] = Moved]
Delete(o)        == ~IsNone(o) /\ st' = [st EXCEPT ![o] = None]
Assign(o, p)     == IsLive(o) /\ IsLive(p) /\ Put(o, Val(p))
MoveAssign(o, p) == o # p /\ ~IsNone(o) /\ IsLive(p) /\ st' = [st EXCEPT ![o] = Live(Val(p)), ![p] = Moved]
Clear(o)         == IsLive(o) /\ Put(o, <<>>)
Query(o)         == ~IsNone(o) /\ UNCHANGED st

SlotsTypeOK == \A o \in Slot : st[o].k \in {"none", "live", "moved"} /\ (st[o].k # "live" => st[o].v = <<>>)

(* script lines, used by the exhaustive modules *)
T(n)     == ToString(n)
SlotS(o) == T(o - 1)
SlotOps(op) ==
  \E o \in Slot :
     \/ New(o) /\ op' = "new " \o SlotS(o)
     \/ Delete(o) /\ op' = "delete " \o SlotS(o)
     \/ Query(o) /\ op' = "query " \o SlotS(o)
     \/ \E p \in Slot :
        \/ Copy(o, p) /\ op' = "copy " \o SlotS(o) \o " " \o SlotS(p)
        \/ Move(o, p) /\ op' = "move " \o SlotS(o) \o " " \o SlotS(p)
        \/ Assign(o, p) /\ op' = "assign " \o SlotS(o) \o " " \o SlotS(p)
        \/ MoveAssign(o, p) /\ op' = "massign " \o SlotS(o) \o " " \o SlotS(p)
=============================================================================
