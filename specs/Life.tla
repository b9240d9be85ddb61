-------------------------------- MODULE Life ---------------------------------
(* Life cycle of elements at places in memory. *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLE alive          \* places at which an element lives

LifeInit == alive = {}

(* one life event: 3 * place + kind; kind 0 born, 1 destroyed, 2 used (read, compared, assigned, copied
   or moved from) *)
Place(c) == c \div 3
Kind(c)  == c % 3
Allowed(S, c) == IF Kind(c) = 0 THEN Place(c) \notin S ELSE Place(c) \in S
After(S, c)   == CASE Kind(c) = 0 -> S \cup {Place(c)}
                   [] Kind(c) = 1 -> S \ {Place(c)}
                   [] OTHER       -> S

(* a whole sequence of events; {-1} as soon as one of them is not allowed *)
Wrong == {0}
RECURSIVE RunFrom(_, _, _)
RunFrom(S, cs, j) == IF j > Len(cs) THEN S
                     ELSE IF Allowed(S, cs[j]) THEN RunFrom(After(S, cs[j]), cs, j + 1) ELSE Wrong
Run(S, cs) == RunFrom(S, cs, 1)
LifeSteps(cs) == LET R == Run(alive, cs) IN R # Wrong /\ alive' = R
=============================================================================
