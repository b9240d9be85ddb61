-------------------------------- MODULE MCVec --------------------------------
(* Two vectors and every operation on them; the laws of vector algebra hold for the specified operations. *)
EXTENDS Vec, TLC, Json

CONSTANTS N, NV, Off, T
Vals == {x - Off : x \in NV}
VARIABLES a, b
vars == <<a, b>>
Vecs == [1..N -> Vals]
Ops == {"add", "sub", "mul", "div"}
Result(op, x, y) == CASE op = "add" -> x + y [] op = "sub" -> x - y [] op = "mul" -> x * y [] op = "div" -> IF y = 0 THEN 999 ELSE IF Float(T) /\ x % Abs(y) # 0 THEN 999 ELSE TDiv(x, y)
Op(op, v, w) == [i \in 1..N |-> Result(op, v[i], w[i])]
EdgeOut(x) == PrintT(<<"EDGE", ToJson(vars), ToJson(x), ToJson(<<a', b'>>)>>)
InV(v) == \A i \in 1..N : v[i] \in Vals
Def(v) == \A i \in 1..N : v[i] # 999
(* compound and pure forms; pure forms whose result is not among the vectors go to the third register *)
Do(op, x, y) == LET v == IF x = 1 THEN a ELSE b
                    w == IF y = 1 THEN a ELSE b
                    r == Op(op, v, w)
                IN  Def(r) /\ IF InV(r) THEN a' = (IF x = 1 THEN r ELSE a) /\ b' = (IF x = 2 THEN r ELSE b) /\ EdgeOut(<<"cmpd", op, x, y>>)
                              ELSE UNCHANGED vars /\ EdgeOut(<<"bin", op, x, y>>)
DoS(op, s, left) == LET S == All(N, s)
                        r == IF left THEN Op(op, S, a) ELSE Op(op, a, S)
                    IN  Def(r) /\ IF InV(r) THEN a' = r /\ UNCHANGED b /\ EdgeOut(<<IF left THEN "svec1" ELSE "cmpds", op, s, 1>>)
                                  ELSE UNCHANGED vars /\ EdgeOut(<<IF left THEN "svec" ELSE "vecs", op, s, 1>>)
DoC(op, i) == LET r == Op(op, a, All(N, a[i]))
              IN  Def(r) /\ IF InV(r) THEN a' = r /\ UNCHANGED b /\ EdgeOut(<<"cmpdc", op, i, 1>>) ELSE UNCHANGED vars /\ EdgeOut(<<"vecc", op, i, 1>>)
Init == a = All(N, 0) /\ b = All(N, 0)
Next == \/ \E op \in Ops, x, y \in {1, 2} : Do(op, x, y)
        \/ \E op \in Ops, s \in Vals : DoS(op, s, TRUE) \/ DoS(op, s, FALSE)
        \/ \E op \in Ops, i \in 1..N : DoC(op, i)
        \/ \E i \in 1..N, x \in Vals : a' = [a EXCEPT ![i] = x] /\ UNCHANGED b /\ EdgeOut(<<"setc", "", i, x>>)
        \/ a' = b /\ b' = a /\ EdgeOut(<<"swap", "", 0, 0>>)
        \/ b' = Neg(a) /\ InV(b') /\ UNCHANGED a /\ EdgeOut(<<"neg", "", 0, 0>>)
        \/ \E q \in {"dot", "cmp", "sq"} : UNCHANGED vars /\ EdgeOut(<<q, "", 0, 0>>)
        \/ N \in {2, 3} /\ UNCHANGED vars /\ EdgeOut(<<"cross", "", 0, 0>>)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------ laws *)
Plus(v, w) == Op("add", v, w)
Laws == /\ \A s \in Vals : Op("sub", All(N, s), a) = Neg(Op("sub", a, All(N, s)))
        /\ Dot(a, b) = Dot(b, a) /\ Dot(Plus(a, b), Plus(a, b)) = Dot(a, a) + 2 * Dot(a, b) + Dot(b, b)
        /\ Plus(Op("sub", a, b), b) = a /\ Neg(Neg(a)) = a /\ Dot(a, a) >= 0
        /\ (N = 3 => LET c == Cross(a, b) IN Dot(c, a) = 0 /\ Dot(c, b) = 0 /\ c = Neg(Cross(b, a)) /\ Dot(c, c) = Dot(a, a) * Dot(b, b) - Dot(a, b) * Dot(a, b))
        /\ (N = 2 => Cross2(a, b) = Cross(Append(a, 0), Append(b, 0)))
        /\ LET m == Masks(a, b) IN m[1] + m[2] = Full(N) /\ m[3] + m[6] = Full(N) /\ m[4] + m[5] = Full(N) /\ m[5] = m[1] + m[3]
        /\ LET h == Holds(a, b) IN (h[1] <=> a = b) /\ (h[1] <=> h[5] /\ h[6]) /\ ~(h[1] /\ h[2])
        /\ \A op \in Ops : LET r == Op(op, a, b) IN Def(r) => Each("i", op, a, b, r) /\ (op \in {"add", "sub"} => Each("f", op, a, b, r))
=============================================================================
