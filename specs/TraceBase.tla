------------------------------ MODULE TraceBase -----------------------------
(* Common part of every trace specification: the recorded trace, the cursor and acceptance. *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

VARIABLE l              \* index of the next event to explain

Trace == ndJsonDeserialize(IOEnv.TRACE)
E     == Trace[l]
Step  == l <= Len(Trace) /\ l' = l + 1
Has(f) == f \in DOMAIN E

TraceAccepted ==
    LET d == TLCGet("stats").diameter - 1
    IN  IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"MATCHED", d>>) /\ FALSE
=============================================================================
