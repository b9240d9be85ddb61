------------------------------ MODULE ValuesTrace ------------------------------
EXTENDS Values, TraceBase

Act == CASE E.e = "Reset"   -> vals' = <<>>
         [] E.e = "End"     -> UNCHANGED vals /\ E.left = 0
         [] E.e = "Fill"    -> Fill(E.v)
         [] E.e = "Swap"    -> Swap(E.i, E.j)
         [] E.e = "Compare" -> /\ Compare(E.i, E.j)
                               \* every way to ask gives the sign of the difference; the null comparator finds everything equal
                               /\ \A k \in DOMAIN E.r : E.r[k] = Sign(vals[E.i], vals[E.j])
                               /\ \A k \in DOMAIN E.z : E.z[k] = 0
         [] E.e = "Across"  -> UNCHANGED vals /\ E.i \in DOMAIN vals /\ E.r = <<Sign(vals[E.i], E.x), Sign(E.x, vals[E.i])>>
         [] E.e = "Debug"   -> UNCHANGED vals /\ E.name = E.type
         [] OTHER -> FALSE
Obs == /\ (Has("all") => E.all = vals')
       /\ (Has("bad") => E.bad = 0 /\ E.live = Len(vals'))
TraceInit == vals = <<>> /\ l = 1
TraceNext == Step /\ Act /\ Obs
TraceSpec == TraceInit /\ [][TraceNext]_<<vals, l>>
=============================================================================
