------------------------------- MODULE FnTrace -------------------------------
EXTENDS Fn, SlotsTrace

Act ==
    CASE E.e = "Assign" -> Set(E.o, E.p)
      [] IsSlotEvent    -> SlotAct /\ UNCHANGED ob
      [] E.e = "Bind"   -> Bind(E.o, E.kind, E.b)
      [] E.e = "Rebind" -> Rebind(E.o, E.kind, E.b)
      [] E.e = "Call"   -> E.r = Result(E.o, E.x) /\ Call(E.o)
      [] E.e = "Query"  -> Query(E.o) /\ UNCHANGED ob /\ E.bl = Bound(E.o) /\ E.nb = ~Bound(E.o)
      [] E.e = "Sig"    -> UNCHANGED <<st, ob>> /\ E.ok /\ E.r = SigResult(E.w, E.x)
      [] E.e = "Fwd"    -> UNCHANGED <<st, ob>> /\ Forwarded(E.par, E.rv, E.x, E.cat, E.v, E.copies, E.same)
      [] OTHER          -> FALSE

TraceInit == FnInit /\ l = 1
TraceNext == Step /\ IF E.e = "Reset" THEN st' = NoSlots /\ ob' = <<0, 0, 0>> ELSE Act /\ Obs /\ E.ob = ob'
TraceSpec == TraceInit /\ [][TraceNext]_<<st, ob, l>>
=============================================================================
