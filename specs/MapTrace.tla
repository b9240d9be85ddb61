------------------------------ MODULE MapTrace -------------------------------
EXTENDS MapObj, SlotsTrace

Act ==
    CASE IsSlotEvent      -> SlotAct
      [] E.e = "Insert"   -> Insert(E.o, E.k, E.v) /\ E.r = E.v
      [] E.e = "Put"      -> Insert(E.o, E.k, E.v) /\ E.bad = 0
      [] E.e = "Index"    -> Index(E.o, E.k) /\ E.r = (IF E.k \in Dom(Val(E.o)) THEN Ap(Val(E.o), E.k) ELSE 0)
      [] E.e = "WriteIt"  -> WriteIt(E.o, E.k, E.v) /\ E.ok = (E.k \in Dom(Val(E.o)))
      (* with a key and a value of the map itself: insert (0), indexed write (1), remove (2), look up (3) *)
      [] E.e = "Own"      -> LET s == Val(E.o) k == s[E.i + 1][1] v == s[E.j + 1][2] IN
                             /\ E.ok
                             /\ (E.w # 2 => E.r = v)
                             /\ CASE E.w \in {0, 1} -> Insert(E.o, k, v) [] E.w = 2 -> Remove(E.o, k) [] OTHER -> Look(E.o)
      [] E.e = "Remove"   -> Remove(E.o, E.k) /\ E.ok = (E.k \in Dom(Val(E.o)))
      [] E.e = "Pop"      -> /\ Remove(E.o, E.k) /\ E.ok = (E.k \in Dom(Val(E.o)))
                             /\ E.r = (IF E.ok THEN Ap(Val(E.o), E.k) ELSE -1)
      [] E.e = "RemoveIt" -> RemoveAt(E.o, E.i) /\ E.nx = SubSeq(Val(E.o), E.i + 2, Len(Val(E.o)))
      [] E.e = "Bulk"     -> Bulk(E.o, E.n)
      [] E.e = "BulkRemove" -> BulkRemove(E.o, E.m) /\ E.ok
      [] E.e = "Find"     -> LET s == Val(E.o) in == E.k \in Dom(s) m == Pairs(s, E.k) IN
                             /\ Look(E.o)
                             /\ E.it = m /\ E.cit = m /\ E.ok = in /\ E.has = in
                             /\ E.r = (IF in THEN Ap(s, E.k) ELSE -1)
                             /\ E.range = m /\ E.crange = m
                             /\ E.from = (IF in THEN SubSeq(s, Of(s, E.k), Len(s)) ELSE <<>>)
      [] E.e = "Query"    -> LET s == Val(E.o) IN
                             /\ Query(E.o)
                             /\ E.n = Len(s) /\ E.n2 = Len(s) /\ E.n3 = Len(s)
                             /\ E.f = s /\ E.cf = s /\ E.pf = s
      [] OTHER            -> FALSE

TraceInit == SlotsInit /\ l = 1
TraceNext == Step /\ IF E.e = "Reset" THEN st' = NoSlots ELSE Act /\ Obs
TraceSpec == TraceInit /\ [][TraceNext]_<<st, l>>
=============================================================================
