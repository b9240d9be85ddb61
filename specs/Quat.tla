--------------------------------- MODULE Quat ---------------------------------
(* Quaternions <<x, y, z, w>> whose components are a + b * sqrt(2), written as the pairs <<a, b>> of     *)
(* numbers of 64ths: the rotations that permute the coordinate axes are 48 of these (two for each).       *)
EXTENDS Integers, Sequences

V == INSTANCE Vec

Abs(x) == IF x < 0 THEN -x ELSE x
(* ------------------------------------------------------------ numbers a + b * sqrt(2) *)
N(a)      == <<a * 64, 0>>
Plus(x, y)  == <<x[1] + y[1], x[2] + y[2]>>
Minus(x)  == <<-x[1], -x[2]>>
Sub(x, y) == Plus(x, Minus(y))
Times(x, y) == <<(x[1] * y[1] + 2 * x[2] * y[2]) \div 64, (x[1] * y[2] + x[2] * y[1]) \div 64>>
ExactTimes(x, y) == (x[1] * y[1] + 2 * x[2] * y[2]) % 64 = 0 /\ (x[1] * y[2] + x[2] * y[1]) % 64 = 0
Two(x)    == Plus(x, x)
(* n is the number in 65536ths, up to rounding *)
Near(n, x)  == Abs(n - (1024 * x[1] + 1448 * x[2] + (1547 * x[2]) \div 10000)) <= 128
(* ------------------------------------------------------------ algebra *)
One == <<N(0), N(0), N(0), N(1)>>
Sum4(a, b, c, d) == Plus(Plus(a, b), Plus(c, d))
Mul(p, q) == LET T(i, j) == Times(p[i], q[j])
                 M(i, j) == Minus(T(i, j))
             IN  <<Sum4(T(4, 1), T(1, 4), T(2, 3), M(3, 2)),
                   Sum4(T(4, 2), T(2, 4), T(3, 1), M(1, 3)),
                   Sum4(T(4, 3), T(3, 4), T(1, 2), M(2, 1)),
                   Sum4(T(4, 4), M(1, 1), M(2, 2), M(3, 3))>>
Conj(q) == <<Minus(q[1]), Minus(q[2]), Minus(q[3]), q[4]>>
Neg(q)  == [i \in 1..4 |-> Minus(q[i])]
Sq(q)   == Sum4(Times(q[1], q[1]), Times(q[2], q[2]), Times(q[3], q[3]), Times(q[4], q[4]))
Unit(q) == Sq(q) = N(1)
(* the vector v turned by the unit quaternion q: the vector part of q v q* *)
Turn(q, v) == LET r == Mul(Mul(q, <<v[1], v[2], v[3], N(0)>>), Conj(q)) IN <<r[1], r[2], r[3]>>
Vec3(v)   == [i \in 1..3 |-> <<v[i] * 64, 0>>]
X == <<1, 0, 0>>
Y == <<0, 1, 0>>
Z == <<0, 0, 1>>
Axes(q)   == <<Turn(q, Vec3(X)), Turn(q, Vec3(Y)), Turn(q, Vec3(Z))>>
(* ------------------------------------------------------------ angles and axes *)
(* the angle of a unit quaternion in 65536ths *)
AngleOf(q) == LET w == q[4]
              IN  CASE w = N(1) -> 0 [] w = <<0, 32>> -> 102944 [] w = <<32, 0>> -> 137258 [] w = N(0) -> 205887
                    [] w = <<-32, 0>> -> 274517 [] w = <<0, -32>> -> 308831 [] w = N(-1) -> 411775
(* the direction of its axis: the components are all of one kind *)
DirOf(q)   == [i \in 1..3 |-> q[i][1] + q[i][2]]
(* the unit quaternion of the turn by k 24ths of a full one around an axis with components -1, 0, 1 *)
L(a)       == a[1] * a[1] + a[2] * a[2] + a[3] * a[3]
Legal(a, k) == /\ k \in {0, 24} \/ (L(a) = 1 /\ k \in {6, 12, 18}) \/ (L(a) = 2 /\ k = 12) \/ (L(a) = 3 /\ k \in {8, 16})
               /\ L(a) # 0
Turned(a, k) == LET s == CASE k \in {0, 24} -> N(0)
                           [] L(a) = 1 /\ k = 12 -> N(1)
                           [] L(a) = 1 -> <<0, 32>>
                           [] L(a) = 2 -> <<0, 32>>
                           [] L(a) = 3 -> <<32, 0>>
                    w == CASE k = 0 -> N(1) [] k = 6 -> <<0, 32>> [] k = 8 -> <<32, 0>> [] k = 12 -> N(0) [] k = 16 -> <<-32, 0>> [] k = 18 -> <<0, -32>> [] k = 24 -> N(-1)
                IN  <<<<a[1] * s[1], a[1] * s[2]>>, <<a[2] * s[1], a[2] * s[2]>>, <<a[3] * s[1], a[3] * s[2]>>, w>>
=============================================================================
