------------------------------- MODULE SeqOps -------------------------------
(* Sequence helpers shared by the component specifications. Positions are 0-based as in the C++ API. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

InsertAtSeq(s, i, xs) == SubSeq(s, 1, i) \o xs \o SubSeq(s, i + 1, Len(s))
RemoveAtSeq(s, i, n)  == SubSeq(s, 1, i) \o SubSeq(s, i + n + 1, Len(s))
At(s, i) == s[i + 1]
Reverse(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
SetAtSeq(s, i, x) == [s EXCEPT ![i + 1] = x]
Range(s) == {s[j] : j \in DOMAIN s}
IsSorted(s) == \A j \in 1..(Len(s) - 1) : s[j] <= s[j + 1]
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Count(s, x) == Cardinality({j \in DOMAIN s : s[j] = x})
=============================================================================
