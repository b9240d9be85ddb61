----------------------------- MODULE AtomicTrace -----------------------------
(* A recorded round: programs of several threads with the results each operation returned, the     *)
(* initial and final values, and (when known) when each operation was called and returned.          *)
(* The round is explained when the operations can take effect one at a time, in program order,       *)
(* each between its call and its return, with exactly these results and final values.               *)
EXTENDS Atomic, TraceBase

VARIABLES val, pos

Ops(t) == E.ths[t]
Thr    == DOMAIN E.ths
Load(k) == IF k <= Len(Trace) /\ Trace[k].e = "Round"
           THEN val' = Trace[k].init /\ pos' = [t \in DOMAIN Trace[k].ths |-> 0]
           ELSE val' = <<>> /\ pos' = <<>>
TraceInit == /\ l = 1 /\ TLCSet(1, 0)
             /\ val = (IF Trace[1].e = "Round" THEN Trace[1].init ELSE <<>>)
             /\ pos = (IF Trace[1].e = "Round" THEN [t \in DOMAIN Trace[1].ths |-> 0] ELSE <<>>)
Pending(t) == pos[t] < Len(Ops(t))
TakeEffect(t) ==
    /\ Pending(t)
    /\ LET op == Ops(t)[pos[t] + 1] IN
       /\ \A u \in Thr : Pending(u) => op.s < Ops(u)[pos[u] + 1].f
       /\ op.r = Result(op, val[op.o], E.b)
       /\ val' = [val EXCEPT ![op.o] = After(op, @, E.b)]
       /\ pos' = [pos EXCEPT ![t] = @ + 1]
    /\ UNCHANGED l
Advance == Step /\ Load(l + 1) /\ TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
Next == /\ l <= Len(Trace)
        /\ \/ E.e = "Round" /\ \E t \in Thr : TakeEffect(t)
           \/ E.e = "Round" /\ (\A t \in Thr : ~Pending(t)) /\ val = E.fin /\ E.guard /\ Advance
           \/ E.e \in {"Reset", "End"} /\ Advance
TraceSpec == TraceInit /\ [][Next]_<<val, pos, l>>
Accepted == IF TLCGet(1) = Len(Trace) THEN TRUE ELSE PrintT(<<"MATCHED", TLCGet(1)>>) /\ FALSE
=============================================================================
