--------------------------------- MODULE Mem ---------------------------------
(* Ranges of memory: sequences of bytes, and of cells that hold an element or nothing. *)
EXTENDS Integers, Sequences, FiniteSets

Disjoint(a, b, n) == a + n <= b \/ b + n <= a              \* positions from 0
Inside(m, a, n)   == a >= 0 /\ n >= 0 /\ a + n <= Len(m)
(* the n places from b get what those from a had *)
Copied(m, b, a, n) == [i \in DOMAIN m |-> IF i - 1 >= b /\ i - 1 < b + n THEN m[i - b + a] ELSE m[i]]
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Compared(m, a, b, n) == LET d == { i \in 1..n : m[a + i] # m[b + i] }
                        IN  IF d = {} THEN 0 ELSE LET i == CHOOSE i \in d : \A j \in d : i <= j IN Sign(m[a + i] - m[b + i])
(* ------------------------------------------------------------ elements *)
Dead  == -1
Some  == -2                                     \* an element nothing is known about
Living(c) == Cardinality({i \in DOMAIN c : c[i] # Dead})
\* = TRUE: TLC then takes these for what they are, values, and not for steps
Alive(c, a, n) == (\A i \in a + 1..a + n : c[i] # Dead) = TRUE
Known(c, a, n) == (\A i \in a + 1..a + n : c[i] >= 0) = TRUE
Vacant(c, a, n) == (\A i \in a + 1..a + n : c[i] = Dead) = TRUE
In(i, a, n)    == i > a /\ i <= a + n
Filled(c, a, n, v) == [i \in DOMAIN c |-> IF In(i, a, n) THEN v ELSE c[i]]
Numbered(c, a, n, v) == [i \in DOMAIN c |-> IF In(i, a, n) THEN v + i - a - 1 ELSE c[i]]
(* relocation of n elements from a to b, in any overlap *)
CanMove(c, b, a, n) == Alive(c, a, n) /\ (\A i \in b + 1..b + n : c[i] = Dead \/ In(i, a, n)) = TRUE
Moved(c, b, a, n) == [i \in DOMAIN c |-> IF In(i, b, n) THEN c[i - b + a] ELSE IF In(i, a, n) THEN Dead ELSE c[i]]
=============================================================================
