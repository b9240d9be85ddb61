------------------------------ MODULE TreeTrace ------------------------------
EXTENDS Tree, SlotsTrace

One(b, x) == IF b THEN <<x>> ELSE <<>>
Act ==
    CASE IsSlotEvent           -> SlotAct
      [] E.e = "Insert"        -> Insert(E.o, E.xs) /\ E.r = E.xs[1]
      [] E.e = "InsertUnique"  -> /\ InsertUnique(E.o, E.xs)
                                  /\ IF Hits(Val(E.o), Key(E.xs[1])) # {}
                                     THEN \E j \in Hits(Val(E.o), Key(E.xs[1])) : E.r = Val(E.o)[j]
                                     ELSE E.r = E.xs[1]
      [] E.e = "Replace"       -> Replace(E.o, E.xs) /\ E.r = E.xs[1]
      (* removal of the i-th item; nx = items from the returned valid node on *)
      [] E.e \in {"RemoveNode", "RemoveIt"} ->
                                  RemoveAt(E.o, E.i) /\ E.nx = SubSeq(Val(E.o), E.i + 2, Len(Val(E.o)))
      [] E.e = "WriteIt"       -> WriteIt(E.o, E.i, E.x) /\ E.r = E.x
      [] E.e = "InsertOwn"     -> LET x == Val(E.o)[E.i + 1] IN
                                  /\ CASE E.w = 0 -> Insert(E.o, <<x>>) [] E.w = 1 -> InsertUnique(E.o, <<x>>) [] OTHER -> Replace(E.o, <<x>>)
                                  /\ IF E.w = 1 THEN \E j \in Hits(Val(E.o), Key(x)) : E.r = Val(E.o)[j] ELSE E.r = x
      [] E.e = "RemoveOwn"     -> RemoveKey(E.o, Key(Val(E.o)[E.i + 1])) /\ E.ok
      [] E.e = "RemoveEnd"     -> RemoveEnd(E.o) /\ E.isend
      [] E.e = "RemoveValue"   -> RemoveKey(E.o, E.k) /\ E.ok = (Hits(Val(E.o), E.k) # {})
      [] E.e = "Bulk"          -> Bulk(E.o, E.n)
      [] E.e = "BulkRemove"    -> BulkRemove(E.o, E.m) /\ E.ok
      [] E.e = "Find"          -> LET s == Val(E.o) h == Hits(s, E.k) m == Matching(s, E.k) IN
                                  /\ Look(E.o)
                                  /\ Len(E.node) = Len(E.it) /\ Len(E.node) = (IF h = {} THEN 0 ELSE 1)
                                  /\ (h # {} => (\E j \in h : s[j] = E.node[1]) /\ (\E j \in h : s[j] = E.it[1]))
                                  /\ E.range = m /\ E.crange = m
                                  /\ E.lo = (IF h = {} THEN <<>> ELSE <<m[1]>>)
                                  /\ E.hi = (IF h = {} THEN <<>> ELSE <<m[Len(m)]>>)
      [] E.e = "Query"         -> LET s == Val(E.o) IN
                                  /\ Query(E.o)
                                  /\ E.n = Len(s) /\ E.f = s /\ E.cf = s /\ E.pf = s /\ E.links = s
                                  /\ E.bk = Reverse(s) /\ E.ibk = Reverse(s) /\ E.inord = s
                                  /\ E.mn = (IF s = <<>> THEN <<>> ELSE <<s[1]>>)
                                  /\ E.mx = (IF s = <<>> THEN <<>> ELSE <<s[Len(s)]>>)
                                  /\ E.sz = Len(s)
      [] OTHER                 -> FALSE

(* property C07, when the node structure of the updated tree is logged *)
Shape == Has("sh") => Balanced(E.sh, Len(st'[E.o].v))

TraceInit == SlotsInit /\ l = 1
TraceNext == Step /\ IF E.e = "Reset" THEN st' = NoSlots ELSE Act /\ Obs /\ Shape
TraceSpec == TraceInit /\ [][TraceNext]_<<st, l>>
=============================================================================
