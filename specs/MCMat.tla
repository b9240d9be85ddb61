-------------------------------- MODULE MCMat --------------------------------
(* Two matrices of N rows, written one element at a time, transposed, copied and compared. *)
EXTENDS Mat, TLC, Json

CONSTANTS N, Top
VARIABLES a, b
vars == <<a, b>>
Vals == 0..Top
Out(x) == PrintT(<<"EDGE", ToJson(vars), ToJson(x), ToJson(<<a', b'>>)>>)
Zero == [k \in 1..N * N |-> 0]
Init == a = Zero /\ b = Zero
Next == \/ \E i, j \in 0..N - 1, x \in Vals : a' = Set(a, N, i, j, x) /\ UNCHANGED b /\ Out(<<"write", i, j, x>>)
        \/ a' = Transposed(a, N) /\ UNCHANGED b /\ Out(<<"transpose", 0, 0, 0>>)
        \/ b' = a /\ UNCHANGED a /\ Out(<<"copy", 0, 0, 0>>)
        \/ a' = b /\ b' = a /\ Out(<<"swap", 0, 0, 0>>)
        \/ UNCHANGED vars /\ Out(<<"cmp", 0, 0, 0>>)
Spec == Init /\ [][Next]_vars
Laws == /\ Transposed(Transposed(a, N), N) = a
        /\ \A i, j \in 0..N - 1 : At(Transposed(a, N), N, i, j) = At(a, N, j, i)
        /\ Mask(a, b) = Mask(b, a) /\ (Mask(a, b) = 2 ^ (N * N) - 1 <=> a = b)
        /\ Cardinality(Same(Transposed(a, N), Transposed(b, N))) = Cardinality(Same(a, b))
        /\ \A i, j \in 0..N - 1, x \in Vals : LET c == Set(a, N, i, j, x) IN Transposed(c, N) = Set(Transposed(a, N), N, j, i, x)
=============================================================================
