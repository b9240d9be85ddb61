------------------------------ MODULE TupTrace -------------------------------
EXTENDS Tup, SlotsTrace

Act ==
    CASE IsSlotEvent      -> SlotAct
      [] E.e = "Make"     -> Make(E.o, E.xs)
      [] E.e = "Write"    -> Write(E.o, E.i, E.x)
      [] E.e = "Compare"  -> /\ Look2(E.o, E.p)
                             /\ IF E.ord
                                THEN LET c == Cmp(Val(E.o), Val(E.p), E.div) IN
                                     /\ E.eq = (c = 0) /\ E.ne = (c # 0) /\ E.lt = (c < 0) /\ E.gt = (c > 0)
                                     /\ E.le = (c <= 0) /\ E.ge = (c >= 0)
                                     /\ E.pp = c /\ E.pk = c /\ E.kp = c
                                ELSE (* access by type: the first position of that type; number of positions *)
                                     LET s == Val(E.o) n == Len(s) IN
                                     /\ E.bt = [j \in 1..n |-> s[E.firsts[j]]] /\ E.btm = E.bt
                                     /\ E.n = n /\ E.n2 = n /\ E.n3 = n
      [] OTHER            -> FALSE

TraceInit == SlotsInit /\ l = 1
TraceNext == Step /\ IF E.e = "Reset" THEN st' = NoSlots
                     ELSE Act /\ Obs
TraceSpec == TraceInit /\ [][TraceNext]_<<st, l>>
TypeOK == SlotsTypeOK
=============================================================================
