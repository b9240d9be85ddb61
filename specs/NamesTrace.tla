------------------------------ MODULE NamesTrace ------------------------------
EXTENDS Names, TraceBase

Act == CASE E.e = "Reset"   -> names' = <<>>
         [] E.e = "End"     -> UNCHANGED names
         [] E.e = "Literal" -> Literal(E.v)
         [] E.e = "Prefix"  -> Prefix(E.v, E.n)
         [] E.e = "Held"    -> Held(E.v)
         [] E.e = "Same"    -> Same(E.i)
         [] E.e = "Concat"  -> Concat(E.is) /\ E.len = Len(Joined(names, E.is))
         [] OTHER -> FALSE
(* what is read from every name: its length, its characters by pointer, by index and during compilation, *)
(* what follows them, and a string made from it                                                           *)
Obs == Has("all") => /\ Len(E.all) = Len(names')
                   /\ \A k \in DOMAIN names' : LET r == E.all[k] m == names'[k] IN
                        /\ r.len = Len(m.v) /\ r.p = m.v /\ r.x = m.v /\ r.c = m.v /\ r.s = m.v
                        /\ (m.z => r.z = 0)
TraceInit == NInit /\ l = 1
TraceNext == Step /\ Act /\ Obs
TraceSpec == TraceInit /\ [][TraceNext]_<<names, l>>
=============================================================================
