------------------------------ MODULE LifeTrace ------------------------------
(* Property C02 over a recorded run: between calls the harness reports every birth, use and destruction
   of an element at some place in memory (3 * place + kind), and how many elements the containers report to
   hold. This module replays them on the abstract life cycle of Life.tla. *)
EXTENDS Life, TraceBase

Held == E.hl
TraceInit == LifeInit /\ l = 1
TraceNext == Step /\ IF E.e = "Reset" THEN alive' = {}
                     ELSE /\ Has("lf")
                          /\ LifeSteps(E.lf)
                          /\ E.er = 0
                          /\ Cardinality(alive') = IF E.e = "End" THEN 0 ELSE Held
TraceSpec == TraceInit /\ [][TraceNext]_<<alive, l>>
=============================================================================
