----------------------------- MODULE StorageTrace ----------------------------
(* Property C10 over a recorded run: with every operation the harness reports the calls the containers made to
   the allocators (ml) and, for a creation, the allocator handed in (m). *)
EXTENDS Storage, TraceBase

CONSTANTS Slots, Owned  \* Owned: every object creates and destroys an allocator of its own

NewOnes == {E.ml[j][2] : j \in {j \in 1..Len(E.ml) : E.ml[j][1] = 2}} \ {E.ml[j][2] : j \in {j \in 1..Len(E.ml) : E.ml[j][1] = 3}}
Bound   == {bind[p] : p \in 1..Slots} \ {NoAlloc}
(* the allocator of an object that comes to life in this step *)
Fresh == IF Owned THEN NewOnes
         ELSE IF Has("m") THEN {E.m}
         ELSE IF E.e = "Copy" THEN {0, bind[E.p]}
         ELSE {0} \cup Bound

StorageInit == held = [x \in {} |-> 0] /\ bind = [o \in 1..Slots |-> NoAlloc] /\ up = 0..3
EndOk == LET S == Fold([held |-> held, up |-> up], E.ml, 1)
         IN  S # Bad /\ S.held = [x \in {} |-> 0] /\ S.up = 0..3
Act ==
    CASE E.e = "End" -> EndOk /\ held' = [x \in {} |-> 0] /\ bind' = [o \in 1..Slots |-> NoAlloc] /\ up' = 0..3
      [] E.e = "Delete" -> Op(E.o, E.o, NoAlloc, E.ml)
      [] E.e = "Move" -> Op(E.o, E.p, bind[E.p], E.ml) \/ \E m \in {0, bind[E.p]} : Op(E.o, E.o, m, E.ml)
      [] E.e = "MoveAssign" -> Op(E.o, E.p, bind[E.p], E.ml) \/ \E m \in {bind[E.o], bind[E.p]} : Op(E.o, E.o, m, E.ml)
      [] ~Has("o") -> LET S == Fold([held |-> held, up |-> up], E.ml, 1) IN S.held = held /\ S.up = up /\ UNCHANGED stvars
      [] OTHER -> IF bind[E.o] = NoAlloc /\ E.st[E.o].k # "moved" THEN \E m \in Fresh : Op(E.o, E.o, m, E.ml)
                  ELSE Op(E.o, E.o, bind[E.o], E.ml)
(* a move either takes over everything the source holds, which is then bound to nothing, or leaves the source
   its own storage until it is assigned to or destroyed *)
TraceInit == StorageInit /\ l = 1
TraceNext == Step /\ IF E.e = "Reset" THEN held' = [x \in {} |-> 0] /\ bind' = [o \in 1..Slots |-> NoAlloc] /\ up' = 0..3
                     ELSE Has("ml") /\ Act
TraceSpec == TraceInit /\ [][TraceNext]_<<held, bind, up, l>>
=============================================================================
