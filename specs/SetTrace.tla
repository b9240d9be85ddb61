------------------------------ MODULE SetTrace -------------------------------
EXTENDS SetObj, SlotsTrace

Fst(xs, s) == IF Key(xs[1]) \in Keys(s) THEN Get(s, Key(xs[1])) ELSE xs[1]
Act ==
    CASE IsSlotEvent     -> SlotAct
      [] E.e = "Add"     -> Add(E.o, E.xs) /\ E.r = (IF E.n = 1 THEN Fst(E.xs, Val(E.o)) ELSE E.xs[1])
      (* adding (0), removing (1), looking for (2) an item of the set itself *)
      [] E.e = "Own"     -> LET x == Val(E.o)[E.i + 1] IN
                            /\ E.ok
                            /\ IF E.w = 1 THEN Remove(E.o, Key(x)) ELSE Look(E.o) /\ E.r = x
      [] E.e = "Remove"  -> /\ Remove(E.o, E.k)
                            /\ E.ok = (E.k \in Keys(Val(E.o)))
                            /\ (E.has => E.out = (IF E.ok THEN Get(Val(E.o), E.k) ELSE -1))
      [] E.e = "Bulk"    -> Bulk(E.o, E.n)
      [] E.e = "BulkRemove" -> BulkRemove(E.o, E.m) /\ E.ok
      [] E.e = "Has"     -> LET s == Val(E.o) k == E.ks[1] in == k \in Keys(s) IN
                            /\ Look(E.o)
                            /\ E.h = in /\ E.h2 = in /\ E.h3 = in
                            /\ E.out = (IF in THEN Get(s, k) ELSE -1) /\ E.out2 = E.out
                            /\ E.any = (\E j \in DOMAIN E.ks : E.ks[j] \in Keys(s))
                            /\ E.all = (\A j \in DOMAIN E.ks : E.ks[j] \in Keys(s))
                            /\ E.from = (IF in THEN SelectSeq(s, LAMBDA x : Key(x) >= k) ELSE <<>>)
                            /\ E.range = Keep(s, {k}) /\ E.crange = Keep(s, {k})
      [] E.e = "Union"   -> Union(E.o, E.p)
      [] E.e = "Inter"   -> Inter(E.o, E.p)
      [] E.e = "Diff"    -> Diff(E.o, E.p)
      [] E.e = "PUnion"  -> PUnion(E.o, E.p, E.q)
      [] E.e = "PInter"  -> PInter(E.o, E.p, E.q)
      [] E.e = "PDiff"   -> PDiff(E.o, E.p, E.q)
      [] E.e = "Compare" -> LET s == Val(E.o) t == Val(E.p) IN
                            /\ Look2(E.o, E.p)
                            /\ E.eq = Same(s, t) /\ E.ne = ~Same(s, t)
                            /\ E.le = SubsetEq(s, t) /\ E.ge = SubsetEq(t, s)
                            /\ E.lt = (SubsetEq(s, t) /\ ~Same(s, t))
                            /\ E.gt = (SubsetEq(t, s) /\ ~Same(s, t))
      [] E.e = "Query"   -> LET s == Val(E.o) IN
                            /\ Query(E.o)
                            /\ E.n = Len(s) /\ E.n2 = Len(s) /\ E.n3 = Len(s) /\ E.n4 = Len(s)
                            /\ E.f = s /\ E.cf = s /\ E.pf = s
      [] OTHER           -> FALSE

TraceInit == SlotsInit /\ l = 1
TraceNext == Step /\ IF E.e = "Reset" THEN st' = NoSlots ELSE Act /\ Obs
TraceSpec == TraceInit /\ [][TraceNext]_<<st, l>>
=============================================================================
