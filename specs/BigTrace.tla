------------------------------- MODULE BigTrace -------------------------------
(* Calls of the helpers: every argument and result in full. *)
EXTENDS Big, TraceBase

Act == CASE E.e \in {"Reset", "End"} -> TRUE
         [] E.e = "Min"  -> IsMin(E.v, E.r)
         [] E.e = "Max"  -> IsMax(E.v, E.r)
         [] E.e = "Abs"  -> IsAbs(E.v, E.r)
         [] E.e = "Pow"  -> IsPow(E.v, E.n, E.r)
         [] E.e = "Log2" -> IsLog2(E.v, E.r)
         [] E.e = "Down" -> IsDown(E.v, E.n, E.r)
         [] E.e = "Up"   -> IsUp(E.v, E.n, E.r)
         [] OTHER -> FALSE
TraceInit == l = 1
TraceNext == Step /\ Act
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
