------------------------------ MODULE AllocTrace ------------------------------
EXTENDS Alloc, TraceBase

Geometry == [k |-> E.k, n |-> E.n, bs |-> E.bs, al |-> E.al, np |-> [i \in 1..E.nb |-> E.np0], min |-> E.min, inc |-> E.inc, nb |-> E.nb]
Act == CASE E.e = "New"     -> New(E.o, Geometry)
         [] E.e = "Alloc"   -> IF E.null THEN AllocFails(E.o, E.h, E.s, E.al, E.dry) ELSE AllocOk(E.o, E.h, E.s, E.al, E.a)
         [] E.e = "Free"    -> Release(E.o, E.h)
         [] E.e = "Realloc" -> IF E.s = 0 THEN E.null /\ Release(E.o, E.h)
                               ELSE IF E.null THEN ReallocFails(E.o, E.h, E.s, E.al, E.dry) ELSE ReallocOk(E.o, E.h, E.s, E.al, E.a, E.kept)
         [] E.e = "FillUp"   -> FillUp(E.o, E.s, E.al, E.max, E.q, E.old, E.dry)
         [] E.e = "BulkFree" -> BulkFree(E.o, E.m)
         [] E.e = "Delete"  -> Delete(E.o)
         [] E.e = "Foreign" -> E.r = FALSE /\ UNCHANGED <<st, held, bulk>>       \* nobody owns a foreign address
         [] E.e = "End"     -> E.leak = 0 /\ st' = [o \in Slot |-> NoAlloc] /\ held' = {} /\ bulk' = NoBulks
         [] OTHER           -> FALSE

Elems(s) == { s[k] : k \in DOMAIN s }
Obs == /\ Has("bad") => E.bad = <<>>                 \* every byte of every held block is what its holder wrote
       /\ Has("fr")  => LET n == st'[E.o].n - Cardinality({b \in held' : b.o = E.o}) - Len(bulk'[E.o].q) IN E.fr = n /\ E.ex = (n = 0)
       /\ Has("np")  => E.np = Total(st'[E.o].np)
       /\ Has("grew") => E.grew = (Total(st'[E.o].np) > Total(st[E.o].np))            \* memory is taken only when needed
       /\ Has("grew2") => E.grew2 = Total(st'[E.o].np) - Total(st[E.o].np)
       /\ Has("bown") => E.bown = Len(bulk'[E.o].q)
       /\ Has("bbad") => E.bbad = 0
       /\ Has("own") => Elems(E.own) = { b.h : b \in { c \in held' : c.o = E.o } }   \* ownership queries over all held blocks
       /\ Has("in")  => E.in
TraceInit == AllocInit /\ l = 1
TraceNext == Step /\ IF E.e = "Reset" THEN st' = [o \in Slot |-> NoAlloc] /\ held' = {} /\ bulk' = NoBulks ELSE Act /\ Obs
TraceSpec == TraceInit /\ [][TraceNext]_<<st, held, bulk, l>>
=============================================================================
