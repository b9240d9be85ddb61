-------------------------------- MODULE Names --------------------------------
(* Names (templates/name.h): constant sequences of characters. `names` has every name made so far: its     *)
(* characters and whether a terminator follows them.                                                       *)
EXTENDS Integers, Sequences

VARIABLE names
NInit == names = <<>>
Known(i) == i \in DOMAIN names
RECURSIVE Joined(_, _)
Joined(ns, is) == IF is = <<>> THEN <<>> ELSE ns[Head(is)].v \o Joined(ns, Tail(is))

Add(v, z) == names' = Append(names, [v |-> v, z |-> z])
Literal(v)      == Add(v, TRUE)                                             \* a string literal, its terminator not counted
Prefix(v, n)    == n <= Len(v) /\ Add(SubSeq(v, 1, n), n = Len(v))          \* n characters of a string
Held(v)         == Add(v, TRUE)                                             \* a fixed array that ends with a terminator
Same(i)         == Known(i) /\ names' = Append(names, names[i])
Concat(is)      == (\A k \in DOMAIN is : Known(is[k])) /\ Add(Joined(names, is), TRUE)
=============================================================================
