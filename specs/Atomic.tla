------------------------------- MODULE Atomic -------------------------------
(* Atomic objects.  A value is a little endian sequence of limbs in some base, so that every     *)
(* supported width (8 to 64 bits, integers and pointers) is described by the same operators.      *)
(* An operation is a record: k kind, o object, a argument (limbs), sc scale of the argument       *)
(* (size of the pointed type for pointers, 1 for integers).                                       *)
EXTENDS Naturals, Sequences

RECURSIVE AddC(_, _, _, _)
AddC(x, y, c, b) ==
    IF x = <<>> THEN <<>>
    ELSE LET s == x[1] + y[1] + c IN <<s % b>> \o AddC(Tail(x), Tail(y), s \div b, b)
AddL(x, y, b) == AddC(x, y, 0, b)
NotL(x, b)    == [j \in DOMAIN x |-> (b - 1) - x[j]]
ZeroL(x)      == [j \in DOMAIN x |-> 0]
OneL(x)       == [j \in DOMAIN x |-> IF j = 1 THEN 1 ELSE 0]
SubL(x, y, b) == AddC(x, NotL(y, b), 1, b)

RECURSIVE MulC(_, _, _, _)
MulC(x, m, c, b) ==
    IF x = <<>> THEN <<>>
    ELSE LET s == x[1] * m + c IN <<s % b>> \o MulC(Tail(x), m, s \div b, b)
MulL(x, m, b) == MulC(x, m, 0, b)     \* by a small number

Loads    == {"load", "loadr", "conv"}                       \* default, relaxed, conversion operator
Silent   == {"store", "storer"}                             \* return nothing
Adds     == {"preinc", "postinc", "addeq", "fadd"}
Subs     == {"predec", "postdec", "subeq", "fsub"}
RMW      == Adds \cup Subs \cup {"xchg"}
Writes   == Silent \cup {"assign"} \cup RMW
Kinds    == Loads \cup Writes
ReturnsNew == {"preinc", "predec", "addeq", "subeq", "assign"}
ReturnsOld == {"postinc", "postdec", "fadd", "fsub", "xchg"} \cup Loads

Amount(op, x, b) ==
    LET u == IF op.k \in {"preinc", "postinc", "predec", "postdec"} THEN OneL(x) ELSE op.a
    IN  MulL(u, op.sc, b)
(* the value of the object after the operation took effect on the value x *)
After(op, x, b) ==
    CASE op.k \in Adds                                -> AddL(x, Amount(op, x, b), b)
      [] op.k \in Subs                                -> SubL(x, Amount(op, x, b), b)
      [] op.k \in {"store", "storer", "assign", "xchg"} -> op.a
      [] op.k \in Loads                               -> x
(* what the caller gets *)
Result(op, x, b) ==
    CASE op.k \in ReturnsNew -> After(op, x, b)
      [] op.k \in ReturnsOld -> x
      [] op.k \in Silent     -> <<>>
=============================================================================
