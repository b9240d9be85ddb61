------------------------------ MODULE OptTrace -------------------------------
EXTENDS Opt, SlotsTrace

Act ==
    CASE E.e = "Assign"  -> Set(E.o, E.p)
      [] E.e = "Clear"   -> Disengage(E.o)
      [] IsSlotEvent     -> SlotAct
      [] E.e = "NewFrom" -> NewFrom(E.o, E.xs)
      [] E.e = "Engage"  -> Engage(E.o, E.x)
      [] E.e = "Swap"    -> Swap(E.o, E.p)
      [] E.e = "Take"    -> Take(E.o) /\ <<E.r>> = Val(E.o)
      [] E.e = "Query"   -> /\ Query(E.o)
                            /\ E.has = E.bl /\ E.nb = ~E.has
                            /\ (IsLive(E.o) => /\ E.has = (Val(E.o) # <<>>)
                                               /\ E.vs = (IF E.has THEN [j \in 1..5 |-> Val(E.o)[1]] ELSE <<>>))
      [] OTHER           -> FALSE

TraceInit == SlotsInit /\ l = 1
TraceNext == Step /\ IF E.e = "Reset" THEN st' = NoSlots ELSE Act /\ Obs
TraceSpec == TraceInit /\ [][TraceNext]_<<st, l>>
=============================================================================
