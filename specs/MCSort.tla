------------------------------- MODULE MCSort --------------------------------
(* The in-place algorithm, one comparison or exchange at a time, over every small sequence, sub-range and
   comparator. Checked: it never leaves the set of permutations, touches nothing outside the range, keeps the
   arguments in step, and every run ends with the range in order. *)
EXTENDS Sorting, TLC, FiniteSets

CONSTANTS Keys, MaxLen, Comparators

VARIABLES src, lo, hi, c, todo, i, j, pc, asrc
vars == <<arr, args, src, asrc, lo, hi, c, todo, i, j, pc>>
(* todo: ranges still to be sorted (a stack); i, j: scan and boundary of the range being partitioned *)

Swap(s, a, b) == [s EXCEPT ![a] = s[b], ![b] = s[a]]
Init == /\ \E n \in 0..MaxLen : \E f \in [1..n -> Keys] :
              /\ src = [x \in 1..n |-> f[x] * Div + x]
              /\ asrc = [x \in 1..n |-> x]
              /\ lo \in 0..n /\ hi \in lo..n
        /\ c \in Comparators
        /\ arr = src /\ args = asrc
        /\ todo = <<<<lo, hi>>>> /\ i = 0 /\ j = 0 /\ pc = "pick"

Top == todo[Len(todo)]
Pop == SubSeq(todo, 1, Len(todo) - 1)
Pick == /\ pc = "pick" /\ todo # <<>>
        /\ IF Top[2] - Top[1] <= 1 THEN todo' = Pop /\ UNCHANGED <<i, j, pc>>
           ELSE i' = Top[1] + 2 /\ j' = Top[1] + 2 /\ pc' = "scan" /\ UNCHANGED todo
        /\ UNCHANGED <<arr, args, src, asrc, lo, hi, c>>
Exch(a, b) == arr' = Swap(arr, a, b) /\ args' = Swap(args, a - lo, b - lo)
Scan == /\ pc = "scan"
        /\ IF i <= Top[2]
           THEN /\ IF Cmp(c, arr[i], arr[Top[1] + 1]) < 0 THEN Exch(i, j) /\ j' = j + 1
                   ELSE UNCHANGED <<arr, args, j>>
                /\ i' = i + 1 /\ UNCHANGED <<todo, pc>>
           ELSE /\ Exch(Top[1] + 1, j - 1)
                /\ todo' = Pop \o <<<<j - 1, Top[2]>>, <<Top[1], j - 2>>>>
                /\ pc' = "pick" /\ UNCHANGED <<i, j>>
        /\ UNCHANGED <<src, asrc, lo, hi, c>>
Next == Pick \/ Scan
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AlwaysPermutation == PermOf(src, arr, lo, hi) /\ Untouched(src, arr, lo, hi)
AlwaysInStep      == Untouched(asrc, args, 0, hi - lo) /\ InStep(src, asrc, arr, args, lo, hi)
Done              == pc = "pick" /\ todo = <<>>
DoneIsSorted      == Done => ArgSortedFrom(src, asrc, arr, args, lo, hi, c)
Terminates        == <>Done
(* args has one entry per position; those of the range are the first hi - lo *)
=============================================================================
