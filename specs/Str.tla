--------------------------------- MODULE Str ---------------------------------
(* Character strings (containers/string.h): a finite sequence of character codes
   0..127 and -128..-1 (the bytes above 127 as this platform's plain characters hold them). 0 is a
   character like any other but where contents are read as C strings: compared, printed, measured. *)
EXTENDS Slots

Cat(o, xs)     == IsLive(o) /\ Put(o, Val(o) \o xs)
Become(o, xs)     == IsLive(o) /\ Put(o, xs)
Write(o, i, c)    == IsLive(o) /\ i \in 0..(Len(Val(o)) - 1) /\ Put(o, SetAtSeq(Val(o), i, c))
From(o, xs)       == NewFrom(o, xs)
Plus(o, p, q)     == IsNone(o) /\ IsLive(p) /\ IsLive(q) /\ Put(o, Val(p) \o Val(q))
PlusC(o, p, xs)   == IsNone(o) /\ IsLive(p) /\ Put(o, Val(p) \o xs)
Tl(s, i)          == SubSeq(s, i + 1, Len(s))
Sub(s, n, pos)    == SubSeq(s, pos + 1, pos + n)
Substr(o, p, n, pos) == IsNone(o) /\ IsLive(p) /\ pos + n <= Len(Val(p)) /\ Put(o, Sub(Val(p), n, pos))
Spliced(s, pos, n, xs) == SubSeq(s, 1, pos) \o xs \o SubSeq(s, pos + n + 1, Len(s))
Splice(o, pos, n, xs)  == IsLive(o) /\ pos + n <= Len(Val(o)) /\ Put(o, Spliced(Val(o), pos, n, xs))
Low(c)  == IF c \in 65..90 THEN c + 32 ELSE c
Upp(c)  == IF c \in 97..122 THEN c - 32 ELSE c
Map(s, F(_)) == [j \in 1..Len(s) |-> F(s[j])]
Lower(o, p) == IsNone(o) /\ IsLive(p) /\ Put(o, Map(Val(p), Low))
Upper(o, p) == IsNone(o) /\ IsLive(p) /\ Put(o, Map(Val(p), Upp))
(* the contents as a C string: up to the first terminator *)
AsC(s) == IF (\A j \in DOMAIN s : s[j] # 0) = TRUE THEN s
          ELSE SubSeq(s, 1, (CHOOSE j \in DOMAIN s : s[j] = 0 /\ \A k \in 1..(j - 1) : s[k] # 0) - 1)
Look(o)     == IsLive(o) /\ UNCHANGED st
Look2(o, p) == IsLive(o) /\ IsLive(p) /\ UNCHANGED st

(* lexicographic comparison: difference of the first differing characters (0 = terminator), or 0 *)
C(s, j) == IF j <= Len(s) THEN s[j] ELSE 0
FirstDiff(s, t, F(_)) ==
    LET m == Max2(Len(s), Len(t)) D == {j \in 1..m : F(C(s, j)) # F(C(t, j))}
    IN IF D = {} THEN 0 ELSE CHOOSE j \in D : \A k \in D : j <= k
Id(c) == c
Diff(s, t)  == LET j == FirstDiff(s, t, Id) IN IF j = 0 THEN 0 ELSE C(s, j) - C(t, j)
IDiff(s, t) == LET j == FirstDiff(s, t, Low) IN IF j = 0 THEN 0 ELSE C(s, j) - C(t, j)
(* the same with bytes read as 0..255 *)
Bytes(s) == [j \in DOMAIN s |-> s[j] % 256]

Ascii(s)    == \A j \in 1..Len(s) : s[j] > 0
(* d is a correct comparison of s with t: the documented difference of characters, and where bytes above 127
   occur, whose place among the characters nothing fixes, in one of the two orders a byte can have *)
IsDiff(d, s, t)  == d = Diff(s, t)  \/ (~(Ascii(s) /\ Ascii(t)) /\ d = Diff(Bytes(s), Bytes(t)))
IsIDiff(d, s, t) == d = IDiff(s, t) \/ (~(Ascii(s) /\ Ascii(t)) /\ d = IDiff(Bytes(s), Bytes(t)))

(* search: all positions at which the pattern occurs *)
Occ(s, x)  == {i \in 0..(Len(s) - Len(x)) : \A j \in 1..Len(x) : s[i + j] = x[j]}
First(s, x, from) == LET P == {i \in Occ(s, x) : i >= from}
                     IN IF P = {} THEN -1 ELSE CHOOSE i \in P : \A k \in P : i <= k
(* r lists the members of P in ascending order *)
IsAscSeq(r, P) == Len(r) = Cardinality(P) /\ (\A j \in DOMAIN r : r[j] \in P) /\ \A j \in 1..(Len(r) - 1) : r[j] < r[j + 1]
(* replacement, left to right, not rescanning replaced text; an empty pattern replaces nothing *)
RECURSIVE Repl(_, _, _)
Repl(s, x, y) ==
    IF x = <<>> THEN s
    ELSE LET i == First(s, x, 0)
         IN IF i = -1 THEN s ELSE SubSeq(s, 1, i) \o y \o Repl(Tl(s, i + Len(x)), x, y)
Replace(o, x, y) == IsLive(o) /\ Put(o, Repl(Val(o), x, y))

TypeOK == SlotsTypeOK /\ \A o \in Slot : \A j \in DOMAIN st[o].v : st[o].v[j] \in -128..127

(* laws checked on every reachable state of the small model *)
Laws == \A o, p \in Slot :
    LET s == Val(o) t == Val(p) IN
    /\ (Diff(s, t) = 0 <=> s = t)
    /\ (Diff(s, t) < 0 <=> Diff(t, s) > 0)
    /\ \A i \in 0..Len(s) : LET f == First(s, t, i) IN
          IF f = -1 THEN \A k \in i..Len(s) : k + Len(t) > Len(s) \/ Sub(s, Len(t), k) # t
          ELSE f >= i /\ Sub(s, Len(t), f) = t /\ \A k \in i..(f - 1) : Sub(s, Len(t), k) # t
    /\ (t # <<>> => Repl(s, t, t) = s)
    /\ (t # <<>> => LET r == Repl(s, t, <<>>) IN (Len(s) - Len(r)) % Len(t) = 0)
=============================================================================
