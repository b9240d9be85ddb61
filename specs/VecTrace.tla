------------------------------- MODULE VecTrace -------------------------------
(* Registers of vectors: rf[T][n - 1][k] is the k-th vector of n components of type T. *)
EXTENDS Vec, TraceBase

Types == {"f", "d", "i", "u", "l"}
Zero  == [T \in Types |-> [m \in 1..3 |-> [k \in 1..3 |-> All(m + 1, 0)]]]
VARIABLE rf
R(T, n, k) == rf[T][n - 1][k]
Now(T)     == E.rf = rf'[T]                  \* everything else of this type as before
Put(T, n, k, v) == rf' = [rf EXCEPT ![T][n - 1][k] = v]
Got(T, n, k) == E.rf[n - 1][k]               \* what the register holds now
(* the event leaves in register k a vector r with the property P *)
Result(T, n, k, P(_)) == P(Got(T, n, k)) /\ Put(T, n, k, Got(T, n, k))

Act ==
    CASE E.e = "Reset" -> rf' = Zero
      [] E.e = "End"   -> UNCHANGED rf
      [] E.e = "Set"   -> Put(E.T, E.n, E.k, E.v)
      [] E.e = "SetC"  -> Put(E.T, E.n, E.k, [R(E.T, E.n, E.k) EXCEPT ![E.i] = E.x])
      [] E.e = "Copy"  -> Put(E.T, E.n, E.k, R(E.T, E.n, E.a))
      [] E.e = "Bin"   -> LET P(r) == Each(E.T, E.op, R(E.T, E.n, E.a), R(E.T, E.n, E.b), r) IN Result(E.T, E.n, E.k, P)
      [] E.e = "VecS"  -> LET P(r) == Each(E.T, E.op, R(E.T, E.n, E.a), All(E.n, E.s), r) IN Result(E.T, E.n, E.k, P)
      [] E.e = "SVec"  -> LET P(r) == Each(E.T, E.op, All(E.n, E.s), R(E.T, E.n, E.a), r) IN Result(E.T, E.n, E.k, P)
      \* a vector combined with one of its own components
      [] E.e = "VecC"  -> LET P(r) == Each(E.T, E.op, R(E.T, E.n, E.a), All(E.n, R(E.T, E.n, E.b)[E.i]), r) IN Result(E.T, E.n, E.k, P)
      [] E.e = "Neg"   -> Put(E.T, E.n, E.k, Neg(R(E.T, E.n, E.a)))
      [] E.e = "Dot"   -> E.r = Dot(R(E.T, E.n, E.a), R(E.T, E.n, E.b)) /\ UNCHANGED rf
      [] E.e = "Sq"    -> E.r = Dot(R(E.T, E.n, E.a), R(E.T, E.n, E.a)) /\ UNCHANGED rf
      \* lengths that are exact; directions, in 1024ths, up to rounding
      [] E.e = "Size"  -> E.r >= 0 /\ E.r * E.r = Dot(R(E.T, E.n, E.a), R(E.T, E.n, E.a)) /\ UNCHANGED rf
      [] E.e = "Norm"  -> Direction(R(E.T, E.n, E.a), E.r) /\ UNCHANGED rf
      [] E.e = "Cross" -> LET P(r) == Each(E.T, "mul", All(3, 1), (IF E.n = 3 THEN Cross(R(E.T, 3, E.a), R(E.T, 3, E.b)) ELSE Cross2(R(E.T, 2, E.a), R(E.T, 2, E.b))), r)
                          IN  Result(E.T, 3, E.k, P)
      [] E.e = "Cmp"   -> E.m = Masks(R(E.T, E.n, E.a), R(E.T, E.n, E.b)) /\ E.h = Holds(R(E.T, E.n, E.a), R(E.T, E.n, E.b)) /\ UNCHANGED rf
      [] E.e = "Near"  -> E.r = (R(E.T, 3, E.a) = All(3, 0)) /\ UNCHANGED rf
      [] E.e = "Conv"  -> Put(E.T, E.n, E.k, [i \in 1..E.n |-> Conv(E.U, E.T, R(E.U, E.n, E.a)[i])])
      [] E.e = "Ext"   -> Put(E.T, E.n, E.k, Append(R(E.T, E.n - 1, E.a), E.x))
      [] E.e = "Drop"  -> Put(E.T, 3, E.k, SubSeq(R(E.T, 4, E.a), 1, 3))
      [] E.e = "Simd"  -> Each("f", E.op, R("f", 4, E.a), R("f", 4, E.b), E.r) /\ UNCHANGED rf
      [] E.e = "Const" -> E.r = (CASE E.c = "zero" -> All(E.n, 0) [] E.c = "unit" -> All(E.n, 64)
                                   [] E.c = "right" -> <<64, 0, 0>> [] E.c = "left" -> <<-64, 0, 0>> [] E.c = "up" -> <<0, 64, 0>>
                                   [] E.c = "down" -> <<0, -64, 0>> [] E.c = "forward" -> <<0, 0, 64>> [] E.c = "backward" -> <<0, 0, -64>>) /\ UNCHANGED rf
      [] OTHER         -> FALSE
TraceInit == rf = Zero /\ l = 1
\* components are the same by index, by name and in the array
TraceNext == Step /\ Act /\ (Has("rf") => Now(E.T) /\ E.same)
TraceSpec == TraceInit /\ [][TraceNext]_<<rf, l>>
=============================================================================
