------------------------------- MODULE MemTrace -------------------------------
(* A range of bytes and one of cells. *)
EXTENDS Mem, TraceBase

VARIABLES m, c
vars == <<m, c>>
Bytes(v) == m' = v /\ UNCHANGED c
Cells(v) == c' = v /\ UNCHANGED m
Act ==
    CASE E.e = "Reset" -> m' = <<>> /\ c' = <<>>
      [] E.e = "End"   -> UNCHANGED vars
      [] E.e = "Bytes" -> Bytes(E.v)
      [] E.e = "Set"   -> Bytes([m EXCEPT ![E.i + 1] = E.x])
      [] E.e = "Copy"  -> Inside(m, E.a, E.n) /\ Inside(m, E.b, E.n) /\ Disjoint(E.a, E.b, E.n) /\ E.r = E.b /\ Bytes(Copied(m, E.b, E.a, E.n))
      [] E.e = "Move"  -> Inside(m, E.a, E.n) /\ Inside(m, E.b, E.n) /\ E.r = E.b /\ Bytes(Copied(m, E.b, E.a, E.n))
      [] E.e = "Cmp"   -> E.r = Compared(m, E.a, E.b, E.n) /\ E.z = (E.r = 0) /\ UNCHANGED vars
      [] E.e = "Cells" -> Cells([i \in 1..E.n |-> Dead])
      [] E.e = "Make"  -> Vacant(c, E.i, 1) /\ Cells(Filled(c, E.i, 1, E.x))
      [] E.e = "MakeMany" -> Vacant(c, E.a, E.n) /\ Cells(Numbered(c, E.a, E.n, E.x))
      [] E.e = "Default" -> Vacant(c, E.a, E.n) /\ Cells(Filled(c, E.a, E.n, IF E.triv THEN Some ELSE 0))
      [] E.e = "CCopy" -> Alive(c, E.a, E.n) /\ Vacant(c, E.b, E.n) /\ Cells(Copied(c, E.b, E.a, E.n))
      [] E.e = "ECopy" -> Alive(c, E.a, E.n) /\ Alive(c, E.b, E.n) /\ Disjoint(E.a, E.b, E.n) /\ Cells(Copied(c, E.b, E.a, E.n))
      [] E.e = "EMove" -> CanMove(c, E.b, E.a, E.n) /\ Cells(Moved(c, E.b, E.a, E.n))
      [] E.e = "Destroy" -> Alive(c, E.a, E.n) /\ Cells(Filled(c, E.a, E.n, Dead))
      [] OTHER -> FALSE
TraceInit == m = <<>> /\ c = <<>> /\ l = 1
Matches(s, o, seen) == (\A i \in DOMAIN s : CASE s[i] >= 0 -> o[i] = s[i]
                                             [] s[i] = Dead -> (seen => o[i] = Dead)
                                             [] OTHER -> seen => o[i] # Dead) = TRUE
(* every byte; every element with its value; where lifetimes can be seen, the cells with and without one *)
Obs == /\ (Has("m") => E.m = m')
       /\ (Has("c") => /\ Len(E.c) = Len(c') /\ E.errors = 0
                       /\ Matches(c', E.c, E.seen))
       /\ (Has("left") => E.left = IF E.seen THEN Living(c') ELSE 0)
TraceNext == Step /\ Act /\ Obs
TraceSpec == TraceInit /\ [][TraceNext]_<<m, c, l>>
=============================================================================
