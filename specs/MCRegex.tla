------------------------------- MODULE MCRegex -------------------------------
(* How the library matches: a pattern becomes an automaton (Thompson's construction with the operations  *)
(* of the builder), and a depth first search looks for a way through it, visiting no state twice at the   *)
(* same position. Checked for all small patterns and strings: the search ends, and its verdict is the     *)
(* meaning of the pattern; and writing a pattern down and parsing it gives its meaning back.              *)
EXTENDS Regex, TLC, Json

CONSTANTS Letters, MaxLen, Atoms, Level, UseSeen
VARIABLES p, s, stack, seen, verdict

(* ------------------------------------------------------------ patterns and texts *)
Atom0 == { Sym(c) : c \in Letters } \cup
         (IF Atoms = "few" THEN {Bol, Eps} ELSE {Dot, Bol, Eol, Bound, Inner, Eps, NotSet(One(97))})
Bounds == {<<0, 1>>, <<0, Inf>>, <<1, Inf>>, <<0, 0>>, <<2, 2>>, <<1, 2>>, <<2, Inf>>, <<0, 2>>}
Reps(S) == { Rep(a, b[1], b[2]) : a \in S, b \in Bounds }
Pairs(S, U) == { Cat(a, b) : a \in S, b \in U } \cup { Alt(a, b) : a \in S, b \in U }
\* (operators with a parameter, so that only what is needed is evaluated)
P1(u) == Atom0 \cup Reps(Atom0) \cup Pairs(Atom0, Atom0)
Loops(u) == { Rep(a, b[1], b[2]) : a \in P1(0), b \in {<<0, 1>>, <<0, Inf>>, <<1, Inf>>, <<2, 2>>, <<1, 2>>} }
P2(u) == P1(0) \cup Loops(0)
P3(u) == P2(0) \cup Pairs(P1(0), { Sym(c) : c \in Letters }) \cup Pairs({ Sym(c) : c \in Letters }, Reps(Atom0)) \cup { Star(q) : q \in Loops(0) }
P4(u) == P3(0) \cup Reps(P2(0)) \cup Pairs(P2(0), Atom0) \cup Pairs(Atom0, P2(0))
Pats == CASE Level = 1 -> P1(0) [] Level = 2 -> P2(0) [] Level = 3 -> P3(0) [] OTHER -> P4(0)
Strs == UNION { [1..n -> Letters \cup {32}] : n \in 0..MaxLen }

RECURSIVE Decimal(_), Txt(_, _)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>
Paren(t) == <<40>> \o t \o <<41>>
Txt(r, lvl) ==                    \* lvl 0: in an alternative, 1: in a sequence, 2: to be repeated
    CASE r.op = "eps" -> IF lvl = 0 THEN <<>> ELSE Paren(<<>>)
      [] r.op = "set" -> <<(CHOOSE x \in r.s : TRUE)[1]>>
      [] r.op = "not" -> IF r.s = {} THEN <<46>> ELSE <<91, 94, (CHOOSE x \in r.s : TRUE)[1], 93>>
      [] r.op = "bol" -> <<94>>
      [] r.op = "eol" -> <<36>>
      [] r.op = "bound" -> <<92, 98>>
      [] r.op = "inner" -> <<92, 66>>
      [] r.op = "cat" -> IF lvl = 2 THEN Paren(Txt(r.l, 1) \o Txt(r.r, 1)) ELSE Txt(r.l, 1) \o Txt(r.r, 1)
      [] r.op = "alt" -> IF lvl = 0 THEN Txt(r.l, 0) \o <<124>> \o Txt(r.r, 0) ELSE Paren(Txt(r.l, 0) \o <<124>> \o Txt(r.r, 0))
      [] r.op = "rep" -> Txt(r.l, 2) \o
            (CASE <<r.min, r.max>> = <<0, 1>>   -> <<63>>
               [] <<r.min, r.max>> = <<0, Inf>> -> <<42>>
               [] <<r.min, r.max>> = <<1, Inf>> -> <<43>>
               [] r.min = r.max -> <<123>> \o Decimal(r.min) \o <<125>>
               [] r.max = Inf   -> <<123>> \o Decimal(r.min) \o <<44, 125>>
               [] OTHER         -> <<123>> \o Decimal(r.min) \o <<44>> \o Decimal(r.max) \o <<125>>)
Show(r) == Txt(r, 0)

(* ------------------------------------------------------------ automata *)
(* states are numbers; lab[q] is what state q reads (its pattern, or Eps), next[q] the states after it *)
NFA0 == [lab |-> <<>>, next |-> <<>>]
Add(N, r) == [lab |-> Append(N.lab, r), next |-> Append(N.next, {})]
Last(N) == Len(N.lab)
Link(N, x, y) == [N EXCEPT !.next[x] = @ \cup {y}]
Frag(N, x, y) == [n |-> N, s |-> x, e |-> y]
RECURSIVE Build(_, _), Copies(_, _, _, _)
(* k copies of r in a row, as pairs of start and end *)
Copies(N, r, k, done) == IF k = 0 THEN [n |-> N, c |-> done]
                         ELSE LET f == Build(N, r) IN Copies(f.n, r, k - 1, Append(done, <<f.s, f.e>>))
Build(N, r) ==
    CASE r.op = "cat" -> LET a == Build(N, r.l) b == Build(a.n, r.r) IN Frag(Link(b.n, a.e, b.s), a.s, b.e)
      [] r.op = "alt" -> LET N1 == Add(Add(N, Eps), Eps) x == Last(N1) - 1 y == Last(N1)
                             a == Build(N1, r.l) b == Build(a.n, r.r)
                         IN  Frag(Link(Link(Link(Link(b.n, x, a.s), x, b.s), a.e, y), b.e, y), x, y)
      [] r.op = "rep" ->
            LET N1 == Add(Add(Add(N, Eps), Eps), Eps)
                x  == Last(N1) - 2  y == Last(N1) - 1  t == Last(N1)     \* start, end, start of the loop
                k  == IF r.max = Inf THEN IF r.min = 0 THEN 1 ELSE r.min ELSE r.max
                cs == Copies(N1, r.l, k, <<>>)
                RECURSIVE Chain(_, _)
                Chain(M, i) ==
                    IF i > k THEN M
                    ELSE LET from == IF i = 1 THEN x ELSE cs.c[i - 1][2]
                             loop == r.max = Inf /\ i = k
                             M1 == IF loop THEN Link(Link(Link(M, from, t), t, cs.c[i][1]), cs.c[i][2], t) ELSE Link(M, from, cs.c[i][1])
                             M2 == IF i > r.min THEN Link(M1, from, y) ELSE M1
                         IN  Chain(IF i = k THEN Link(M2, cs.c[i][2], y) ELSE M2, i + 1)
            IN  IF k = 0 THEN Frag(Link(N1, x, y), x, y) ELSE Frag(Chain(cs.n, 1), x, y)
      [] OTHER -> LET N1 == Add(Add(N, Eps), r) IN Frag(Link(N1, Last(N1) - 1, Last(N1)), Last(N1) - 1, Last(N1))
Machine == [r \in Pats |-> Build(NFA0, r)]

(* ------------------------------------------------------------ the search *)
vars == <<p, s, stack, seen, verdict>>
Init == p \in Pats /\ s \in Strs /\ stack = <<<<Machine[p].s, 0>>>> /\ seen = {} /\ verdict = "run"
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x[1] <= y[1] IN <<x>> \o SetToSeq(S \ {x})
Step == /\ verdict = "run" /\ UNCHANGED <<p, s>>
        /\ IF stack = <<>> THEN verdict' = "no" /\ UNCHANGED <<stack, seen>>
           ELSE LET m == Machine[p]
                    v == stack[1]
                    after == Ends(m.n.lab[v[1]], s, {v[2]})                   \* entering the state: where it stops reading
                    next == UNION { { <<q, j>> : q \in m.n.next[v[1]] } : j \in after }
                    new == IF UseSeen THEN next \ seen ELSE next
                IN  IF v[1] = m.e /\ Len(s) \in after THEN verdict' = "yes" /\ UNCHANGED <<stack, seen>>
                    ELSE verdict' = "run" /\ stack' = SetToSeq(new) \o Tail(stack) /\ seen' = seen \cup new
Spec == Init /\ [][Step]_vars

Right == verdict # "run" => (verdict = "yes") = Accepts(p, s)
(* every step of the search is progress: finitely many pairs to see, then finitely many to take back *)
Progress == [][verdict' = "run" => \/ Cardinality(seen') > Cardinality(seen) \/ (seen' = seen /\ Len(stack') < Len(stack))]_vars
WrittenDown == verdict = "run" \/ LET q == Parse(Show(p)) IN q.ok /\ Accepts(q.r, s) = Accepts(p, s)
Small == Len(stack) < 40
EdgeOut == verdict' = "run" \/ PrintT(<<"EDGE", ToJson(Show(p)), "match", ToJson(s)>>)
=============================================================================
