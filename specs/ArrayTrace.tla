----------------------------- MODULE ArrayTrace -----------------------------
(* Binds every event logged by harness/array.cpp to an action of Array. *)
EXTENDS Array, SlotsTrace

Act ==
    CASE IsSlotEvent         -> SlotAct
      [] E.e = "NewFrom"     -> NewFrom(E.o, E.xs)
      [] E.e = "Insert"      -> Insert(E.o, E.i, E.xs) /\ E.r = E.xs[1]
      [] E.e = "InsertFar"   -> InsertFar(E.o, E.i, E.xs) /\ E.r = E.xs[1]
      [] E.e = "InsertFirst" -> InsertFirst(E.o, E.xs) /\ E.r = E.xs[1]
      [] E.e = "InsertLast"  -> InsertLast(E.o, E.xs) /\ E.r = E.xs[1]
      [] E.e = "InsertOwn"   -> InsertOwn(E.o, E.i, E.is) /\ E.r = Own(E.o, E.is)[1]
      [] E.e = "InitOwn"     -> LET x == At(Val(E.o), E.k) IN GetOrInit(E.o, E.i, x) /\ E.r = (IF E.i < Len(Val(E.o)) THEN At(Val(E.o), E.i) ELSE x)
      [] E.e = "WriteIt"     -> Write(E.o, E.i, E.x) /\ E.r = E.x /\ E.r2 = E.x
      [] E.e = "Write"       -> Write(E.o, E.i, E.x)
      [] E.e = "Grow"        -> Grow(E.o, E.i, E.fill, E.x)
      [] E.e = "GetOrInit"   -> GetOrInit(E.o, E.i, E.x)
                                /\ E.r = (IF E.i < Len(Val(E.o)) THEN At(Val(E.o), E.i) ELSE E.x)
      [] E.e = "Remove"      -> Remove(E.o, E.i, E.n)
      [] E.e = "RemoveFirst" -> Remove(E.o, 0, 1)
      [] E.e = "RemoveLast"  -> Remove(E.o, Len(Val(E.o)) - 1, 1)
      [] E.e = "Pop"         -> Pop(E.o, E.i) /\ E.r = At(Val(E.o), E.i)
      [] E.e = "PopFirst"    -> Pop(E.o, 0) /\ E.r = At(Val(E.o), 0)
      [] E.e = "PopLast"     -> Pop(E.o, Len(Val(E.o)) - 1) /\ E.r = At(Val(E.o), Len(Val(E.o)) - 1)
      [] E.e = "Query"       -> Query(E.o) /\ E.f = Val(E.o) /\ E.bk = Reverse(Val(E.o)) /\ E.pf = Val(E.o)
                                /\ E.n = Len(Val(E.o)) /\ E.emp = (Val(E.o) = <<>>) /\ E.bytes = Len(Val(E.o))
                                /\ E.data = Val(E.o)
      [] E.e = "Iter"        -> LET s == Val(E.o) IN
                                /\ IsLive(E.o) /\ E.i < Len(s) /\ E.j < Len(s) /\ UNCHANGED st
                                /\ E.a = At(s, E.i) /\ E.b = At(s, E.j) /\ E.sub = At(s, E.j) /\ E.mi = At(s, E.i)
                                /\ E.eq = (E.i = E.j) /\ E.ne = (E.i # E.j) /\ E.lt = (E.i < E.j)
                                /\ E.gt = (E.i > E.j) /\ E.le = (E.i <= E.j) /\ E.ge = (E.i >= E.j)
      [] OTHER               -> FALSE

TraceInit == SlotsInit /\ l = 1
TraceNext == Step /\ IF E.e = "Reset" THEN st' = NoSlots ELSE Act /\ Obs
TraceSpec == TraceInit /\ [][TraceNext]_<<st, l>>
=============================================================================
