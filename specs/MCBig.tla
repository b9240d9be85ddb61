-------------------------------- MODULE MCBig --------------------------------
(* The arithmetic on limbs is that of the integers, and the relations have exactly one solution. *)
EXTENDS Big, TLC, Json, FiniteSets

CONSTANTS Top, Exps, MaxK
VARIABLE x
Of(n)  == LET m == IF n < 0 THEN -n ELSE n IN [neg |-> n < 0, mag |-> [j \in 1..Limbs |-> (m \div (Base ^ (j - 1))) % Base]]
RECURSIVE Val(_, _)
Val(m, j) == IF j > Limbs THEN 0 ELSE m[j] * Base ^ (j - 1) + Val(m, j + 1)
To(v)  == IF v.neg THEN -Val(v.mag, 1) ELSE Val(v.mag, 1)
Ints   == -Top..Top
Mod    == Base ^ Limbs
Label(l) == PrintT(<<"EDGE", ToJson(x), ToJson(l), ToJson(x')>>)
Init == x = 0
(* walks through the integers; every argument of every function on the way *)
Next == \/ x < Top /\ x >= 0 /\ x' = x + 1 /\ Label(<<"inc", 0>>)
        \/ x > -Top /\ x <= 0 /\ x' = x - 1 /\ Label(<<"dec", 0>>)
        \/ \E n \in Exps : UNCHANGED x /\ Label(<<"pow", n>>)
        \/ \E k \in 0..MaxK : UNCHANGED x /\ (Label(<<"down", k>>) /\ Label(<<"up", k>>))
        \/ \E y \in Ints : UNCHANGED x /\ (Label(<<"min", y>>) /\ Label(<<"max", y>>))
        \/ UNCHANGED x /\ Label(<<"abs", 0>>)
        \/ x > 0 /\ UNCHANGED x /\ Label(<<"log2", 0>>)
Spec == Init /\ [][Next]_x

Pw(n)  == IF n = 0 THEN 1 ELSE x ^ n
Abs(n) == IF n < 0 THEN -n ELSE n
Arith == /\ To(Of(x)) = x
         /\ \A y \in Ints : /\ Less(Of(x), Of(y)) <=> x < y
                            /\ Abs(x + y) < Mod => To(Plus(Of(x), Of(y))) = x + y
                            /\ Abs(x * y) < Mod => To(Times(Of(x), Of(y))) = x * y
Solutions(P(_)) == { y \in -2 * Top..2 * Top : P(Of(y)) }
Functions == /\ \A n \in Exps : Abs(Pw(n)) < Mod => To(Power(Of(x), n)) = Pw(n)
             /\ \A k \in 0..MaxK : LET D(r) == IsDown(Of(x), k, r) U(r) == IsUp(Of(x), k, r) IN
                   /\ Solutions(D) = {(x \div 2 ^ k) * 2 ^ k} /\ Solutions(U) = {(x \div 2 ^ k) * 2 ^ k + 2 ^ k}
             /\ LET A(r) == IsAbs(Of(x), r) IN Solutions(A) = {Abs(x)}
             /\ x > 0 => LET G(r) == IsLog2(Of(x), r) IN \E g \in 0..30 : Solutions(G) = {g} /\ 2 ^ g <= x /\ x < 2 ^ (g + 1)
             /\ \A y \in Ints : LET I(r) == IsMin(<<Of(x), Of(y)>>, r) M(r) == IsMax(<<Of(x), Of(y)>>, r) IN
                   Solutions(I) = {IF x < y THEN x ELSE y} /\ Solutions(M) = {IF x < y THEN y ELSE x}
=============================================================================
