--------------------------------- MODULE Mat ---------------------------------
(* Square matrices as sequences of their elements, row by row. *)
EXTENDS Integers, Sequences, FiniteSets

Side(m)    == CHOOSE n \in 1..4 : n * n = Len(m)
At(m, n, i, j) == m[n * i + j + 1]                           \* i and j from 0
Set(m, n, i, j, x) == [m EXCEPT ![n * i + j + 1] = x]
Transposed(m, n) == [k \in 1..n * n |-> At(m, n, (k - 1) % n, (k - 1) \div n)]
Same(a, b) == {k \in DOMAIN a : a[k] = b[k]}
(* bit Len - k of the mask stands for element k *)
Mask(a, b) == LET RECURSIVE F(_) F(k) == IF k = 0 THEN 0 ELSE 2 * F(k - 1) + (IF a[k] = b[k] THEN 1 ELSE 0) IN F(Len(a))
=============================================================================
