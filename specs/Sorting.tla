------------------------------- MODULE Sorting -------------------------------
(* What sorting, sorting with arguments and partitioning may do to a sequence. Items are numbers; an item
   carries a key (item \div Div) and an identity, so that equal keys can be told apart. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Div
VARIABLES arr, args

Key(x) == x \div Div
(* the comparators of the harness, by number *)
Cmp(c, x, y) ==
    LET a == Key(x) b == Key(y)
    IN  CASE c = 0 -> a - b
          [] c = 1 -> b - a
          [] c = 2 -> 0
          [] c = 3 -> (a % 2) - (b % 2)
          [] c = 4 -> IF a < b THEN -1000000 ELSE IF a > b THEN 1000000 ELSE 0
          [] OTHER -> (a \div 2) - (b \div 2)
(* zero-based half-open range lo..hi *)
InRange(lo, hi, j) == j > lo /\ j <= hi
CountIn(s, lo, hi, x) == Len(SelectSeq(SubSeq(s, lo + 1, hi), LAMBDA y : y = x))
SlowPermOf(s, t, lo, hi) == \A j \in (lo + 1)..hi : CountIn(s, lo, hi, s[j]) = CountIn(t, lo, hi, s[j])
(* items that all differ: a rearrangement has the same set of items *)
SetOf(s) == {s[j] : j \in DOMAIN s}
PermOf(s, t, lo, hi) ==
    LET A == SetOf(SubSeq(s, lo + 1, hi)) IN
      IF hi - lo > 50 /\ Cardinality(A) = hi - lo THEN SetOf(SubSeq(t, lo + 1, hi)) = A ELSE SlowPermOf(s, t, lo, hi)
Untouched(s, t, lo, hi) == Len(s) = Len(t) /\ \A j \in 1..Len(s) : ~InRange(lo, hi, j) => t[j] = s[j]
Ordered(t, lo, hi, c) == \A j \in (lo + 1)..(hi - 1) : Cmp(c, t[j], t[j + 1]) <= 0

SortedFrom(s, t, lo, hi, c) == Untouched(s, t, lo, hi) /\ PermOf(s, t, lo, hi) /\ Ordered(t, lo, hi, c)
(* both sequences are permuted in step; the arguments start at 0 and as many as the range has take part *)
Pairs(s, x, lo, hi) == [j \in 1..(hi - lo) |-> <<s[lo + j], x[j]>>]
InStep(s, x, t, y, lo, hi) ==
    LET p == Pairs(s, x, lo, hi) q == Pairs(t, y, lo, hi)
    IN  IF Len(p) > 50 /\ Cardinality(SetOf(p)) = Len(p) THEN SetOf(p) = SetOf(q)
        ELSE \A j \in DOMAIN p : Len(SelectSeq(p, LAMBDA z : z = p[j])) = Len(SelectSeq(q, LAMBDA z : z = p[j]))
ArgSortedFrom(s, x, t, y, lo, hi, c) ==
    /\ SortedFrom(s, t, lo, hi, c)
    /\ Untouched(x, y, 0, hi - lo)
    /\ InStep(s, x, t, y, lo, hi)
(* everything smaller than the pivot comes before position r, everything else from there on *)
PartFrom(s, t, lo, hi, p, c, r) ==
    /\ Untouched(s, t, lo, hi) /\ PermOf(s, t, lo, hi)
    /\ r \in lo..hi
    /\ \A j \in (lo + 1)..r : Cmp(c, t[j], p) < 0
    /\ \A j \in (r + 1)..hi : Cmp(c, t[j], p) >= 0

(* "= TRUE": evaluated as a formula; TLC would unfold a conjunction over 66000 positions as an action, recursively *)
Fill(s)           == arr' = s /\ args' = <<>>
SetArgs(s)        == args' = s /\ UNCHANGED arr
SortAct(lo, hi, c, t)       == SortedFrom(arr, t, lo, hi, c) = TRUE /\ arr' = t /\ UNCHANGED args
ArgSortAct(lo, hi, c, t, y) == ArgSortedFrom(arr, args, t, y, lo, hi, c) = TRUE /\ arr' = t /\ args' = y
PartAct(lo, hi, p, c, r, t) == PartFrom(arr, t, lo, hi, p, c, r) = TRUE /\ arr' = t /\ UNCHANGED args
=============================================================================
