-------------------------------- MODULE Values --------------------------------
(* A row of values that are exchanged and compared (swap of templates/utility.h, comparators of            *)
(* templates/functional.h).                                                                                 *)
EXTENDS Integers, Sequences
VARIABLE vals
Sign(a, b) == IF a > b THEN 1 ELSE IF a < b THEN -1 ELSE 0
Fill(v)    == vals' = v
Swap(i, j) == {i, j} \subseteq DOMAIN vals /\ vals' = [vals EXCEPT ![i] = vals[j], ![j] = vals[i]]
Compare(i, j) == {i, j} \subseteq DOMAIN vals /\ UNCHANGED vals
=============================================================================
