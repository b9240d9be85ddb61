--------------------------------- MODULE Big ---------------------------------
(* Integers of any width: [neg, mag] with mag a little endian sequence of limbs in some base, which must *)
(* be even. The functions of the library on them, as relations between arguments and results.             *)
EXTENDS Integers, Sequences

CONSTANTS Base, Limbs                 \* Base = 2 ^ Bits
Bits == CHOOSE k \in 1..16 : 2 ^ k = Base
Zero == [j \in 1..Limbs |-> 0]
IsZero(m) == \A j \in 1..Limbs : m[j] = 0
RECURSIVE AddC(_, _, _, _), SubC(_, _, _, _), MulC(_, _, _, _), LessM(_, _, _), MulA(_, _, _)
AddC(x, y, c, j) == IF j > Limbs THEN <<>> ELSE LET s == x[j] + y[j] + c IN <<s % Base>> \o AddC(x, y, s \div Base, j + 1)
SubC(x, y, c, j) == IF j > Limbs THEN <<>> ELSE LET s == x[j] - y[j] - c IN <<s % Base>> \o SubC(x, y, IF s < 0 THEN 1 ELSE 0, j + 1)
MulC(x, d, c, j) == IF j > Limbs THEN <<>> ELSE LET s == x[j] * d + c IN <<s % Base>> \o MulC(x, d, s \div Base, j + 1)
LessM(x, y, j)   == j >= 1 /\ (x[j] < y[j] \/ (x[j] = y[j] /\ LessM(x, y, j - 1)))
Lt(x, y)  == LessM(x, y, Limbs)
AddM(x, y) == AddC(x, y, 0, 1)
SubM(x, y) == SubC(x, y, 0, 1)             \* y not above x
Shift(x)   == <<0>> \o SubSeq(x, 1, Limbs - 1)
MulA(x, y, j) == IF j > Limbs THEN Zero ELSE AddM(MulC(x, y[j], 0, 1), Shift(MulA(x, y, j + 1)))
MulM(x, y) == MulA(x, y, 1)
Bit(x, k)  == (x[k \div Bits + 1] \div (2 ^ (k % Bits))) % 2
Pow2(k)    == [j \in 1..Limbs |-> IF j = k \div Bits + 1 THEN 2 ^ (k % Bits) ELSE 0]

Norm(v)    == IF IsZero(v.mag) THEN [neg |-> FALSE, mag |-> v.mag] ELSE v
Pos(m)     == [neg |-> FALSE, mag |-> m]
Less(v, w) == CASE v.neg /\ ~w.neg -> TRUE [] ~v.neg /\ w.neg -> FALSE [] ~v.neg -> Lt(v.mag, w.mag) [] OTHER -> Lt(w.mag, v.mag)
Leq(v, w)  == ~Less(w, v)
Plus(v, w) == Norm(CASE v.neg = w.neg -> [neg |-> v.neg, mag |-> AddM(v.mag, w.mag)]
                     [] Lt(v.mag, w.mag) -> [neg |-> w.neg, mag |-> SubM(w.mag, v.mag)]
                     [] OTHER -> [neg |-> v.neg, mag |-> SubM(v.mag, w.mag)])
Times(v, w) == Norm([neg |-> v.neg # w.neg, mag |-> MulM(v.mag, w.mag)])
RECURSIVE Power(_, _)
Power(v, n) == IF n = 0 THEN Pos([j \in 1..Limbs |-> IF j = 1 THEN 1 ELSE 0]) ELSE Times(v, Power(v, n - 1))

(* ------------------------------------------------------------ what the helpers return *)
IsMin(vs, r) == (\E i \in DOMAIN vs : vs[i] = r) /\ \A i \in DOMAIN vs : Leq(r, vs[i])
IsMax(vs, r) == (\E i \in DOMAIN vs : vs[i] = r) /\ \A i \in DOMAIN vs : Leq(vs[i], r)
IsAbs(v, r)  == r = Pos(v.mag)
IsPow(v, n, r) == r = Power(v, n)
IsLog2(v, r) == LET k == r.mag[1] + Base * r.mag[2] IN ~v.neg /\ ~r.neg /\ (\A j \in 3..Limbs : r.mag[j] = 0) /\ k < Limbs * Bits
                                     /\ Leq(Pos(Pow2(k)), v) /\ (k + 1 < Limbs * Bits => Less(v, Pos(Pow2(k + 1))))
Multiple(v, k) == \A i \in 0..k - 1 : Bit(v.mag, i) = 0
(* of 2^k: the largest multiple not above, the smallest above *)
IsDown(v, k, r) == Multiple(r, k) /\ Leq(r, v) /\ Less(v, Plus(r, Pos(Pow2(k))))
IsUp(v, k, r)   == Multiple(r, k) /\ Less(v, r) /\ Leq(r, Plus(v, Pos(Pow2(k))))
=============================================================================
