------------------------------- MODULE MatTrace -------------------------------
(* Three 4x4 matrices. *)
EXTENDS Mat, TraceBase

VARIABLE m
Zero == [k \in 1..16 |-> 0]
Put(k, v) == m' = [m EXCEPT ![k] = v]
Act ==
    CASE E.e = "Reset"  -> m' = [k \in 1..3 |-> Zero]
      [] E.e = "End"    -> UNCHANGED m
      [] E.e = "Scalar" -> Put(E.k, [i \in 1..16 |-> E.x])
      \* missing elements are zero
      [] E.e = "List"   -> Put(E.k, [i \in 1..16 |-> IF i <= Len(E.v) THEN E.v[i] ELSE 0])
      [] E.e = "Buffer" -> Put(E.k, E.v)
      [] E.e = "Write"  -> Put(E.k, Set(m[E.k], 4, E.i, E.j, E.x))
      [] E.e \in {"Copy", "Assign"} -> Put(E.k, m[E.a])
      [] E.e = "Transpose" -> Put(E.k, Transposed(m[E.k], 4)) /\ E.self
      [] E.e = "Cmp"    -> E.mask = Mask(m[E.a], m[E.b]) /\ E.eq = (m[E.a] = m[E.b]) /\ E.ne = ~E.eq /\ UNCHANGED m
      [] OTHER -> FALSE
TraceInit == m = [k \in 1..3 |-> Zero] /\ l = 1
\* whichever way the elements are read
TraceNext == Step /\ Act /\ (Has("m") => E.m = m' /\ E.same)
TraceSpec == TraceInit /\ [][TraceNext]_<<m, l>>
=============================================================================
