------------------------------ MODULE FixedTrace ------------------------------
EXTENDS Fixed, SlotsTrace

Act ==
    CASE E.e = "New"   -> Make(E.o, E.n, <<>>)
      [] IsSlotEvent   -> SlotAct
      [] E.e = "Make"  -> Make(E.o, E.n, E.xs)
      [] E.e = "Write" -> Write(E.o, E.i, E.x)
      (* the number of items, through a constant and a modifiable array; an element read by a constant one *)
      [] E.e = "Read"  -> Look(E.o) /\ E.count = Len(Val(E.o)) /\ E.x = Val(E.o)[E.i + 1]
      [] OTHER         -> FALSE

TraceInit == SlotsInit /\ l = 1
TraceNext == Step /\ IF E.e = "Reset" THEN st' = NoSlots
                     ELSE Act /\ Obs
TraceSpec == TraceInit /\ [][TraceNext]_<<st, l>>
TypeOK == SlotsTypeOK
=============================================================================
