-------------------------------- MODULE Regex --------------------------------
(* Regular expressions: the concrete syntax (texts are sequences of character codes 1..127), and what *)
(* a pattern denotes. Ends(r, s, I) is the set of positions at which an occurrence of r that starts at *)
(* one of the positions I of s may end; s is matched when an occurrence from 0 ends at Len(s).         *)
EXTENDS Integers, Sequences, FiniteSets

Codes == 1..127
Inf   == 1000000

(* ------------------------------------------------------------- character classes: sets of ranges *)
In(c, R) == \E x \in R : x[1] <= c /\ c <= x[2]
One(c)   == {<<c, c>>}
Digits   == {<<48, 57>>}
NoDigits == {<<1, 47>>, <<58, 127>>}
Words    == {<<48, 57>>, <<65, 90>>, <<95, 95>>, <<97, 122>>}
NoWords  == {<<1, 47>>, <<58, 64>>, <<91, 94>>, <<96, 96>>, <<123, 127>>}
Spaces   == {<<9, 13>>, <<32, 32>>}
NoSpaces == {<<1, 8>>, <<14, 31>>, <<33, 127>>}
Digit    == 48..57
IsWord(c) == In(c, Words)

(* ------------------------------------------------------------- abstract syntax *)
Eps       == [op |-> "eps"]
Set(R)    == [op |-> "set", s |-> R]
NotSet(R) == [op |-> "not", s |-> R]
Sym(c)    == Set(One(c))
Dot       == NotSet({})
Bol       == [op |-> "bol"]       \* ^
Eol       == [op |-> "eol"]       \* $
Bound     == [op |-> "bound"]     \* \b a word boundary
Inner     == [op |-> "inner"]     \* \B between two word characters
(* states that automata can be built from, but that have no concrete syntax *)
Rng(lo, hi) == [op |-> "rng", lo |-> lo, hi |-> hi]
Any1      == [op |-> "any"]
Two       == [op |-> "two"]       \* a function that reads two characters
Look(a)   == [op |-> "look", l |-> a]      \* what follows starts with a
NLook(a)  == [op |-> "nlook", l |-> a]     \* ... does not
Cat(a, b) == [op |-> "cat", l |-> a, r |-> b]
Alt(a, b) == [op |-> "alt", l |-> a, r |-> b]
Rep(a, min, max) == [op |-> "rep", l |-> a, min |-> min, max |-> max]
Star(a) == Rep(a, 0, Inf)
Plus(a) == Rep(a, 1, Inf)
Opt(a)  == Rep(a, 0, 1)

(* ------------------------------------------------------------- meaning *)
WordAt(s, i) == i \in 0..(Len(s) - 1) /\ IsWord(s[i + 1])       \* the character after position i
RECURSIVE Ends(_, _, _), Closure(_, _, _, _), Times(_, _, _, _), UpTo(_, _, _, _, _)
(* Ends distributes over unions: a closure only has to look at new positions *)
Closure(r, s, all, new) == IF new = {} THEN all ELSE LET n == Ends(r, s, new) \ all IN Closure(r, s, all \cup n, n)
Times(r, s, I, n)       == IF n = 0 \/ I = {} THEN I ELSE Times(r, s, Ends(r, s, I), n - 1)
UpTo(r, s, all, I, n)   == IF n = 0 \/ I = {} THEN all ELSE LET e == Ends(r, s, I) IN UpTo(r, s, all \cup e, e, n - 1)
Ends(r, s, I) ==
    CASE r.op = "eps"   -> I
      [] r.op = "set"   -> { i + 1 : i \in { j \in I : j < Len(s) /\ In(s[j + 1], r.s) } }
      [] r.op = "not"   -> { i + 1 : i \in { j \in I : j < Len(s) /\ ~In(s[j + 1], r.s) } }
      [] r.op = "rng"   -> { i + 1 : i \in { j \in I : j < Len(s) /\ r.lo <= s[j + 1] /\ s[j + 1] <= r.hi } }
      [] r.op = "any"   -> { i + 1 : i \in { j \in I : j < Len(s) } }
      [] r.op = "two"   -> { i + 2 : i \in { j \in I : j + 1 < Len(s) } }
      [] r.op = "look"  -> { i \in I : Ends(r.l, s, {i}) # {} }
      [] r.op = "nlook" -> { i \in I : Ends(r.l, s, {i}) = {} }
      [] r.op = "bol"   -> I \cap {0}
      [] r.op = "eol"   -> I \cap {Len(s)}
      [] r.op = "bound" -> { i \in I : WordAt(s, i) # WordAt(s, i - 1) }
      [] r.op = "inner" -> { i \in I : WordAt(s, i) /\ WordAt(s, i - 1) }
      [] r.op = "cat"   -> Ends(r.r, s, Ends(r.l, s, I))
      [] r.op = "alt"   -> Ends(r.l, s, I) \cup Ends(r.r, s, I)
      [] r.op = "rep"   -> LET J == Times(r.l, s, I, r.min)
                           IN  IF r.max = Inf THEN Closure(r.l, s, J, J) ELSE UpTo(r.l, s, J, J, r.max - r.min)
Prefixes(r, s) == Ends(r, s, {0}) # {}     \* some beginning of s is matched
Accepts(r, s) == Len(s) \in Ends(r, s, {0})

(* ------------------------------------------------------------- concrete syntax *)
(* A pattern is malformed when it leaves a parenthesis or bracket open, closes one that is not open,  *)
(* repeats nothing, has bounds out of order, or escapes what is no special character.                 *)
No == [ok |-> FALSE]
Yes(r, i) == [ok |-> TRUE, r |-> r, i |-> i]         \* i: the first character not read
At(t, i)  == IF i \in 1..Len(t) THEN t[i] ELSE 0
Special(c) == c \in 33..126 /\ ~IsWord(c)
(* what the escape \c inside and outside brackets stands for *)
EscapeSet(c) == CASE c = 100 -> Digits [] c = 68 -> NoDigits [] c = 119 -> Words [] c = 87 -> NoWords
                  [] c = 115 -> Spaces [] c = 83 -> NoSpaces [] Special(c) -> One(c) [] OTHER -> {}

RECURSIVE Number(_, _, _), Items(_, _, _), Quantified(_, _, _), Sequence(_, _), Alternatives(_, _)
Number(t, i, n) == IF At(t, i) \in Digit /\ n < 1000 THEN Number(t, i + 1, n * 10 + At(t, i) - 48) ELSE [n |-> n, i |-> i]

(* the items of a bracket expression, from position i *)
Items(t, i, S) ==
    LET c == At(t, i) IN
    CASE c = 0  -> No
      [] c = 93 -> Yes(S, i + 1)
      [] c = 92 -> IF EscapeSet(At(t, i + 1)) = {} \/ (At(t, i + 2) = 45 /\ At(t, i + 3) # 93) THEN No    \* no range starts with an escape
                   ELSE Items(t, i + 2, S \cup EscapeSet(At(t, i + 1)))
      [] OTHER  -> IF At(t, i + 1) = 45 /\ At(t, i + 2) # 93
                   THEN LET e == At(t, i + 2) = 92                          \* a range may end with an escaped character
                            d == IF e THEN At(t, i + 3) ELSE At(t, i + 2)
                        IN  IF d = 0 \/ d < c \/ (e /\ ~Special(d)) THEN No ELSE Items(t, i + (IF e THEN 4 ELSE 3), S \cup {<<c, d>>})
                   ELSE Items(t, i + 1, S \cup One(c))
Brackets(t, i) ==                                    \* t[i] is the opening bracket
    IF At(t, i + 1) = 94
    THEN IF At(t, i + 2) = 93 THEN Yes(Dot, i + 3)
         ELSE LET c == Items(t, i + 2, {}) IN IF c.ok THEN Yes(NotSet(c.r), c.i) ELSE No
    ELSE IF At(t, i + 1) = 93 THEN No
         ELSE LET c == Items(t, i + 1, {}) IN IF c.ok THEN Yes(Set(c.r), c.i) ELSE No

(* bounds {n} {n,} {n,m}, from the opening brace *)
Braces(t, i) ==
    LET a == Number(t, i + 1, 0) IN
    IF a.i = i + 1 THEN No
    ELSE IF At(t, a.i) = 125 THEN [ok |-> TRUE, min |-> a.n, max |-> a.n, i |-> a.i + 1]
    ELSE IF At(t, a.i) # 44 THEN No
    ELSE IF At(t, a.i + 1) = 125 THEN [ok |-> TRUE, min |-> a.n, max |-> Inf, i |-> a.i + 2]
    ELSE LET b == Number(t, a.i + 1, 0)
         IN  IF b.i = a.i + 1 \/ At(t, b.i) # 125 \/ b.n < a.n THEN No
             ELSE [ok |-> TRUE, min |-> a.n, max |-> b.n, i |-> b.i + 1]
Quantified(t, r, i) ==
    LET c == At(t, i) IN
    CASE c = 42  -> Quantified(t, Star(r), i + 1)
      [] c = 43  -> Quantified(t, Plus(r), i + 1)
      [] c = 63  -> Quantified(t, Opt(r), i + 1)
      [] c = 123 -> LET b == Braces(t, i) IN IF b.ok THEN Quantified(t, Rep(r, b.min, b.max), b.i) ELSE No
      [] OTHER   -> Yes(r, i)
Atom(t, i) ==
    LET c == At(t, i) IN
    CASE c = 40 -> LET g == Alternatives(t, i + 1) IN IF g.ok /\ At(t, g.i) = 41 THEN Yes(g.r, g.i + 1) ELSE No
      [] c = 46 -> Yes(Dot, i + 1)
      [] c = 94 -> Yes(Bol, i + 1)
      [] c = 36 -> Yes(Eol, i + 1)
      [] c = 91 -> Brackets(t, i)
      [] c = 92 -> LET d == At(t, i + 1) IN
                   CASE d = 98 -> Yes(Bound, i + 2)
                     [] d = 66 -> Yes(Inner, i + 2)
                     [] OTHER  -> IF EscapeSet(d) = {} THEN No ELSE Yes(Set(EscapeSet(d)), i + 2)
      [] c \in {42, 43, 63, 123} -> No               \* nothing to repeat
      [] OTHER  -> Yes(Sym(c), i + 1)
Sequence(t, i) ==
    IF At(t, i) \in {0, 41, 124} THEN Yes(Eps, i)
    ELSE LET a == Atom(t, i)
             q == IF a.ok THEN Quantified(t, a.r, a.i) ELSE No
             b == IF q.ok THEN Sequence(t, q.i) ELSE No
         IN  IF b.ok THEN Yes(IF b.r = Eps THEN q.r ELSE Cat(q.r, b.r), b.i) ELSE No
Alternatives(t, i) ==
    LET a == Sequence(t, i) IN
    IF ~a.ok \/ At(t, a.i) # 124 THEN a
    ELSE LET b == Alternatives(t, a.i + 1) IN IF b.ok THEN Yes(Alt(a.r, b.r), b.i) ELSE No
Parse(t) == LET p == Alternatives(t, 1) IN IF p.ok /\ p.i = Len(t) + 1 THEN p ELSE No

=============================================================================
