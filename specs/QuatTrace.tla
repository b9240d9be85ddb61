------------------------------- MODULE QuatTrace -------------------------------
(* Four quaternions. *)
EXTENDS Quat, TraceBase

VARIABLES q
ShowsQ(r, p) == Len(r) = 4 /\ \A i \in 1..4 : Near(r[i], p[i])
Vector(r, v) == Len(r) = 3 /\ \A i \in 1..3 : Near(r[i], v[i])
Put(k, p)    == q' = [q EXCEPT ![k] = p]
Angle(n, p)  == Abs(n - AngleOf(p)) <= 80
Act ==
    CASE E.e = "Reset" -> q' = [k \in 1..4 |-> One]
      [] E.e = "End"   -> UNCHANGED q
      [] E.e = "Default" -> Put(E.k, One)
      [] E.e = "Set"   -> Put(E.k, E.c)
      [] E.e = "Copy"  -> Put(E.k, q[E.a])
      [] E.e = "Mul"   -> Put(E.k, Mul(q[E.a], q[E.b]))
      \* the inverse rotation, of which there are two
      [] E.e = "Inv"   -> \/ Put(E.k, Conj(q[E.a]))
                          \/ Put(E.k, Neg(Conj(q[E.a])))
      [] E.e \in {"FromAngle", "FromVector"} -> Legal(E.a, E.n) /\ Put(E.k, Turned(E.a, E.n))
      [] E.e = "FromNull"  -> Put(E.k, One)
      [] E.e = "Turn"  -> Unit(q[E.k]) /\ Vector(E.r, Turn(q[E.k], Vec3(E.v))) /\ UNCHANGED q
      [] E.e = "Axes"  -> Unit(q[E.k]) /\ Len(E.r) = 3 /\ (\A i \in 1..3 : Vector(E.r[i], Axes(q[E.k])[i])) /\ UNCHANGED q
      [] E.e = "Dirs"  -> LET a == Axes(q[E.k]) IN
                          /\ Unit(q[E.k]) /\ UNCHANGED q /\ Len(E.r) = 6
                          /\ \A i \in 1..3 : Vector(E.r[2 * i - 1], a[i]) /\ Vector(E.r[2 * i], [j \in 1..3 |-> Minus(a[i][j])])
      [] E.e = "Angle" -> Unit(q[E.k]) /\ Angle(E.n, q[E.k]) /\ UNCHANGED q
      [] E.e = "Axis"  -> Unit(q[E.k]) /\ q[E.k][4] \notin {N(1), N(-1)} /\ Angle(E.n, q[E.k]) /\ V!Direction(DirOf(q[E.k]), E.r) /\ UNCHANGED q
      [] E.e = "Size"  -> E.r = Sq(q[E.k])[1] /\ Sq(q[E.k])[2] = 0 /\ UNCHANGED q
      [] OTHER -> FALSE
TraceInit == q = [k \in 1..4 |-> One] /\ l = 1
TraceNext == Step /\ Act /\ (Has("q") => \A k \in 1..4 : ShowsQ(E.q[k], q'[k]))
TraceSpec == TraceInit /\ [][TraceNext]_<<q, l>>
=============================================================================
