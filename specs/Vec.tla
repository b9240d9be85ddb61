--------------------------------- MODULE Vec ---------------------------------
(* Vectors of 2, 3 and 4 components. A component of a floating-point vector is written as the number of *)
(* 64ths it has (only exact arithmetic is specified); of an integer vector, as itself.                  *)
EXTENDS Integers, Sequences

Float(T) == T \in {"f", "d"}
Unit(T)  == IF Float(T) THEN 64 ELSE 1
Abs(x)   == IF x < 0 THEN -x ELSE x
Sign(x)  == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
TDiv(a, b) == Sign(a) * Sign(b) * (Abs(a) \div Abs(b))      \* towards zero

Exact(a, b) == a % Abs(b) = 0

(* c is the result of the operation on a and b *)
Is(T, op, a, b, c) ==
    CASE op = "add" -> c = a + b
      [] op = "sub" -> c = a - b
      [] op = "mul" -> Exact(a * b, Unit(T)) /\ c = TDiv(a * b, Unit(T))
      [] op = "div" -> b # 0 /\ (Float(T) => Exact(a * 64, b)) /\ c = TDiv(a * Unit(T), b)
Each(T, op, v, w, r) == Len(r) = Len(v) /\ \A i \in 1..Len(v) : Is(T, op, v[i], w[i], r[i])
All(n, s)  == [i \in 1..n |-> s]
Neg(v)     == [i \in DOMAIN v |-> -v[i]]
Sum(f)     == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE f[k] + S(k - 1) IN S(Len(f))
Dot(v, w)  == Sum([i \in DOMAIN v |-> v[i] * w[i]])         \* in squares of the unit
Det(v, w, i, j) == v[i] * w[j] - v[j] * w[i]
Cross(v, w) == <<Det(v, w, 2, 3), Det(v, w, 3, 1), Det(v, w, 1, 2)>>
Cross2(v, w) == <<0, 0, Det(v, w, 1, 2)>>
Mask(n, B(_)) == LET RECURSIVE M(_) M(k) == IF k = 0 THEN 0 ELSE (IF B(k) THEN 2 ^ (k - 1) ELSE 0) + M(k - 1) IN M(n)
EqM(v, w) == LET B(i) == v[i] = w[i] IN Mask(Len(v), B)
NeM(v, w) == LET B(i) == v[i] # w[i] IN Mask(Len(v), B)
LtM(v, w) == LET B(i) == v[i] < w[i] IN Mask(Len(v), B)
LeM(v, w) == LET B(i) == v[i] <= w[i] IN Mask(Len(v), B)
Masks(v, w) == <<EqM(v, w), NeM(v, w), LtM(v, w), LtM(w, v), LeM(v, w), LeM(w, v)>>
Full(n) == 2 ^ n - 1
Holds(v, w) == [k \in 1..6 |-> Masks(v, w)[k] = Full(Len(v))]      \* the operators hold when they do for all components
(* r, in 1024ths up to rounding, has length 1 and the direction of v *)
Direction(v, r) == /\ Len(r) = Len(v) /\ (\A i \in 1..Len(v) : Abs(r[i]) <= 1024) /\ Abs(Dot(r, r) - 1048576) <= 1024 * Len(v) + 4
                   /\ \A i, j \in 1..Len(v) : Abs(r[i] * v[j] - r[j] * v[i]) <= Abs(v[i]) + Abs(v[j])
                   /\ \A i \in 1..Len(v) : r[i] * v[i] >= 0
(* conversion of one component between types *)
Conv(T, U, x) == IF Float(T) THEN IF Float(U) THEN x ELSE TDiv(x, 64) ELSE IF Float(U) THEN x * 64 ELSE x
=============================================================================
