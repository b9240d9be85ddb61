------------------------------ MODULE SortTrace ------------------------------
EXTENDS Sorting, TraceBase

TraceInit == arr = <<>> /\ args = <<>> /\ l = 1
Act == CASE E.e = "Reset"   -> arr' = <<>> /\ args' = <<>>
         [] E.e = "Fill"    -> Fill(E.xs)
         [] E.e = "Args"    -> SetArgs(E.xs)
         [] E.e = "Sort"    -> SortAct(E.lo, E.hi, E.c, E.a)
         [] E.e = "ArgSort" -> ArgSortAct(E.lo, E.hi, E.c, E.a, E.x)
         [] E.e = "Part"    -> PartAct(E.lo, E.hi, E.p, E.c, E.r, E.a)
         [] E.e = "End"     -> UNCHANGED <<arr, args>>
         [] OTHER           -> FALSE
(* the items themselves, and their neighbours in memory, are what the specification says they are *)
TraceNext == Step /\ Act /\ (Has("a") => E.a = arr') /\ (Has("er") => E.er = 0) /\ (Has("guard") => E.guard)
TraceSpec == TraceInit /\ [][TraceNext]_<<arr, args, l>>
=============================================================================
