-------------------------------- MODULE MCMem --------------------------------
(* All ranges, distances and overlaps of a small memory. *)
EXTENDS Mem, TLC, Json, FiniteSets

CONSTANTS L, Top, Elements             \* Elements: cells instead of bytes
VARIABLE s
Vals == 1..Top
Label(x) == PrintT(<<"EDGE", ToJson(s), ToJson(x), ToJson(s')>>)
Init == s = [i \in 1..L |-> IF Elements THEN Dead ELSE 1]
Ranges == { <<a, n>> \in (0..L) \X (0..L) : a + n <= L }
Pairs  == { <<b, a, n>> \in (0..L) \X (0..L) \X (0..L) : a + n <= L /\ b + n <= L }
BNext == \/ \E i \in 0..L - 1, x \in Vals : s' = [s EXCEPT ![i + 1] = x] /\ Label(<<"set", i, x, 0>>)
         \/ \E p \in Pairs : s' = Copied(s, p[1], p[2], p[3]) /\ Label(<<"mov", p[1], p[2], p[3]>>) /\ (Disjoint(p[1], p[2], p[3]) => Label(<<"copy", p[1], p[2], p[3]>>))
         \/ \E p \in Pairs : UNCHANGED s /\ Label(<<"cmp", p[1], p[2], p[3]>>)
ENext == \/ \E i \in 0..L - 1, x \in Vals : Vacant(s, i, 1) /\ s' = Filled(s, i, 1, x) /\ Label(<<"make", i, x, 0>>)
         \/ \E r \in Ranges : Vacant(s, r[1], r[2]) /\ s' = Filled(s, r[1], r[2], 0) /\ Label(<<"default", r[1], r[2], 0>>)
         \/ \E r \in Ranges : Alive(s, r[1], r[2]) /\ s' = Filled(s, r[1], r[2], Dead) /\ Label(<<"destroy", r[1], r[2], 0>>)
         \/ \E p \in Pairs : CanMove(s, p[1], p[2], p[3]) /\ s' = Moved(s, p[1], p[2], p[3]) /\ Label(<<"emove", p[1], p[2], p[3]>>)
         \/ \E p \in Pairs : Alive(s, p[2], p[3]) /\ Vacant(s, p[1], p[3]) /\ s' = Copied(s, p[1], p[2], p[3]) /\ Label(<<"ccopy", p[1], p[2], p[3]>>)
         \/ \E p \in Pairs : Disjoint(p[1], p[2], p[3]) /\ Alive(s, p[2], p[3]) /\ Alive(s, p[1], p[3]) /\ s' = Copied(s, p[1], p[2], p[3]) /\ Label(<<"ecopy", p[1], p[2], p[3]>>)
Next == IF Elements THEN ENext ELSE BNext
Spec == Init /\ [][Next]_s

Laws == /\ \A p \in Pairs : LET t == Copied(s, p[1], p[2], p[3]) IN
             /\ \A i \in 1..p[3] : t[p[1] + i] = s[p[2] + i]
             /\ \A i \in 1..L : ~In(i, p[1], p[3]) => t[i] = s[i]
             /\ (Disjoint(p[1], p[2], p[3]) => Compared(t, p[1], p[2], p[3]) = 0)
             /\ Compared(s, p[1], p[2], p[3]) = -Compared(s, p[2], p[1], p[3])
        /\ Elements => \A p \in Pairs : CanMove(s, p[1], p[2], p[3]) =>
             LET t == Moved(s, p[1], p[2], p[3]) IN Living(t) = Living(s) /\ CanMove(t, p[2], p[1], p[3]) /\ Moved(t, p[2], p[1], p[3]) = s
=============================================================================
