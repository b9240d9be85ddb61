-------------------------------- MODULE MCQuat --------------------------------
(* The 48 quaternions that permute the axes, as two registers; the laws of quaternions and of rotations. *)
EXTENDS Quat, TLC, Json, FiniteSets

VARIABLES p, q
vars == <<p, q>>
Gens == {<<X, 6>>, <<Y, 6>>, <<<<1, 1, 1>>, 8>>, <<<<1, 1, 0>>, 12>>}
Label(x) == PrintT(<<"EDGE", ToJson(vars), ToJson(x), ToJson(<<p', q'>>)>>)
Init == p = One /\ q = One
Next == \/ p' = Mul(p, q) /\ UNCHANGED q /\ Label(<<"mul", 1, 1, 2>>)
        \/ q' = Mul(q, p) /\ UNCHANGED p /\ Label(<<"mul", 2, 2, 1>>)
        \/ p' = q /\ q' = p /\ Label(<<"swap", 0, 0, 0>>)
        \/ p' = Conj(p) /\ UNCHANGED q /\ Label(<<"inv", 1, 1, 0>>)
        \/ \E g \in Gens : p' = Mul(p, Turned(g[1], g[2])) /\ UNCHANGED q /\ Label(<<"turn", g[1], g[2], 0>>)
        \/ UNCHANGED vars /\ Label(<<"look", 0, 0, 0>>)
Spec == Init /\ [][Next]_vars

Mat(r) == Axes(r)                             \* the columns of the matrix of the rotation
Whole(v) == \A i \in 1..3 : v[i][2] = 0 /\ v[i][1] % 64 = 0
Ints(v) == [i \in 1..3 |-> v[i][1] \div 64]
Basis == {One, <<N(1), N(0), N(0), N(0)>>, <<N(0), N(1), N(0), N(0)>>, <<N(0), N(0), N(1), N(0)>>}
Det(a, b, c) == a[1] * (b[2] * c[3] - b[3] * c[2]) - a[2] * (b[1] * c[3] - b[3] * c[1]) + a[3] * (b[1] * c[2] - b[2] * c[1])
Algebra == /\ \A r \in Basis : Mul(Mul(p, q), r) = Mul(p, Mul(q, r))
           /\ Mul(p, One) = p /\ Mul(One, p) = p /\ Mul(p, Conj(p)) = One
           /\ Conj(Mul(p, q)) = Mul(Conj(q), Conj(p)) /\ Unit(p) /\ Unit(Mul(p, q))
Rotation == /\ \A i \in 1..3 : Whole(Axes(p)[i])
            /\ LET a == Axes(p) IN Det(Ints(a[1]), Ints(a[2]), Ints(a[3])) = 1 /\ \A i \in 1..3 : \E j \in 1..3 : Ints(a[i])[j] \in {-1, 1} /\ \A k \in 1..3 : k # j => Ints(a[i])[k] = 0
            \* rotating by a product is rotating by its second factor, then by the first
            /\ \A i \in 1..3 : Turn(Mul(p, q), Vec3(<<X, Y, Z>>[i])) = Turn(p, Turn(q, Vec3(<<X, Y, Z>>[i])))
            /\ \A i \in 1..3 : Axes(Neg(p)) = Axes(p) /\ Turn(Conj(p), Turn(p, Vec3(<<X, Y, Z>>[i]))) = Vec3(<<X, Y, Z>>[i])
            \* the form in which the code computes it
            /\ \A i \in 1..3 : LET v == Vec3(<<X, Y, Z>>[i])
                                   Cr(a, b) == <<Sub(Times(a[2], b[3]), Times(a[3], b[2])), Sub(Times(a[3], b[1]), Times(a[1], b[3])), Sub(Times(a[1], b[2]), Times(a[2], b[1]))>>
                                   u == <<p[1], p[2], p[3]>>
                                   t == [j \in 1..3 |-> Two(Cr(u, v)[j])]
                               IN  Turn(p, v) = [j \in 1..3 |-> Sum4(v[j], Times(p[4], t[j]), Cr(u, t)[j], N(0))]
(* each is the turn by its angle around its axis *)
Angles == [n \in {0, 102944, 137258, 205887, 274517, 308831, 411775} |-> CASE n = 0 -> 0 [] n = 102944 -> 6 [] n = 137258 -> 8 [] n = 205887 -> 12 [] n = 274517 -> 16 [] n = 308831 -> 18 [] n = 411775 -> 24]
Sgn(a) == [i \in 1..3 |-> IF a[i] < 0 THEN -1 ELSE IF a[i] > 0 THEN 1 ELSE 0]
Described == LET a == Sgn(DirOf(p)) k == Angles[AngleOf(p)] IN
             IF k \in {0, 24} THEN a = <<0, 0, 0>> ELSE Legal(a, k) /\ Turned(a, k) = p /\ V!Direction(DirOf(p), [i \in 1..3 |-> (a[i] * (CASE L(a) = 1 -> 1024 [] L(a) = 2 -> 724 [] L(a) = 3 -> 591))])
=============================================================================
