------------------------------ MODULE ListTrace ------------------------------
EXTENDS List, SlotsTrace

Has1(o) == Val(o) # <<>>
Act ==
    CASE IsSlotEvent         -> SlotAct
      [] E.e = "NewRange"    -> NewRange(E.o, E.xs)
      [] E.e = "PushBack"    -> PushBack(E.o, E.xs) /\ E.r = E.xs[1]
      [] E.e = "PushFront"   -> PushFront(E.o, E.xs) /\ E.r = E.xs[1]
      [] E.e = "Write"       -> Write(E.o, E.i, E.x)
      [] E.e = "WriteIt"     -> Write(E.o, E.i, E.x) /\ E.r = E.x
      [] E.e = "PushOwn"     -> PushOwn(E.o, E.i, E.back) /\ E.r = Val(E.o)[E.i + 1]
      [] E.e = "Drain"       -> Drain(E.o, E.n) /\ E.ok
      [] E.e = "RemoveLink"  -> RemoveLink(E.o, E.i)
      [] E.e = "RemoveIt"    -> RemoveLink(E.o, E.i)
      [] E.e = "RemoveEnd"   -> RemoveEnd(E.o)
      [] E.e = "RemoveBack"  -> RemoveBack(E.o) /\ E.ok = Has1(E.o)
      [] E.e = "RemoveFront" -> RemoveFront(E.o) /\ E.ok = Has1(E.o)
      [] E.e = "PopBack"     -> RemoveBack(E.o) /\ E.ok = Has1(E.o)
                                /\ E.r = (IF Has1(E.o) THEN Val(E.o)[Len(Val(E.o))] ELSE -5)
      [] E.e = "PopFront"    -> RemoveFront(E.o) /\ E.ok = Has1(E.o)
                                /\ E.r = (IF Has1(E.o) THEN Val(E.o)[1] ELSE -5)
      [] E.e = "Query"       -> LET s == Val(E.o) IN
                                /\ Query(E.o)
                                /\ E.n = Len(s) /\ E.f = ForwardWalk(s) /\ E.cf = s /\ E.pf = s
                                /\ E.links = ForwardWalk(s) /\ E.bk = BackwardWalk(s) /\ E.ibk = BackwardWalk(s)
                                /\ E.hd = (IF s = <<>> THEN <<>> ELSE <<s[1]>>)
                                /\ E.tl = (IF s = <<>> THEN <<>> ELSE <<s[Len(s)]>>)
                                /\ E.ends                       \* prev of head and next of tail are null
                                /\ (Has("str") => E.str = Shown(s))
      [] OTHER               -> FALSE

TraceInit == SlotsInit /\ l = 1
TraceNext == Step /\ IF E.e = "Reset" THEN st' = NoSlots ELSE Act /\ Obs
TraceSpec == TraceInit /\ [][TraceNext]_<<st, l>>
TypeOK == SlotsTypeOK
=============================================================================
