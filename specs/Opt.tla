--------------------------------- MODULE Opt ---------------------------------
(* Optional values (templates/optional.h): contents <<>> (disengaged) or <<x>> (engaged). A moved-from
   optional may be assigned, filled, reset or destroyed; nothing is assumed about its own state. *)
EXTENDS Slots

Engage(o, x)    == ~IsNone(o) /\ Put(o, <<x>>)
Disengage(o)    == ~IsNone(o) /\ Put(o, <<>>)
Set(o, p)       == ~IsNone(o) /\ IsLive(p) /\ Put(o, Val(p))
Swap(o, p)      == IsLive(o) /\ IsLive(p) /\ st' = [st EXCEPT ![o] = st[p], ![p] = st[o]]
Engaged(o)      == IsLive(o) /\ Val(o) # <<>>
Rewrite(o, x)   == Engaged(o) /\ Put(o, <<x>>)
Take(o)         == Engaged(o) /\ Put(o, <<>>)
TypeOK == SlotsTypeOK /\ \A o \in Slot : Len(st[o].v) <= 1
=============================================================================
