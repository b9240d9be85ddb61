-------------------------------- MODULE MCStr --------------------------------
(* Exhaustive small instance: two strings over a two-letter alphabet (codes 97 'a', 98 'b'). Search selects
   the search-and-replace operations (property C04), otherwise the content operations (C03). *)
EXTENDS Str, Json

CONSTANTS MaxLen, Search
VARIABLE op

MCInit == SlotsInit /\ op = "init"
Small == \A o \in Slot : Len(st[o].v) <= MaxLen
Hex(c) == IF c = 97 THEN "61" ELSE "62"
RECURSIVE HexS(_)
HexS(s) == IF s = <<>> THEN "" ELSE Hex(Head(s)) \o HexS(Tail(s))
H(s) == IF s = <<>> THEN "-" ELSE HexS(s)
Words(n) == UNION {[1..k -> {97, 98}] : k \in 0..n}
Sp(o, w) == w \o " " \o SlotS(o)

Content ==
  \/ SlotOps(op)
  \/ \E o \in Slot :
     \/ \E xs \in Words(2) :
        \/ From(o, xs) /\ op' = Sp(o, "fromc") \o " " \o H(xs)
        \/ Cat(o, xs) /\ op' = Sp(o, "appc") \o " " \o H(xs)
        \/ Become(o, xs) /\ op' = Sp(o, "assignc") \o " " \o H(xs)
        \/ \E pos, n \in 0..MaxLen : Splice(o, pos, n, xs) /\ op' = Sp(o, "splc") \o " " \o T(pos) \o " " \o T(n) \o " " \o H(xs)
     \/ Cat(o, <<98>>) /\ op' = Sp(o, "appch") \o " 98"
     \/ \E p \in Slot :
        \/ IsLive(p) /\ Cat(o, Val(p)) /\ op' = Sp(o, "apps") \o " " \o SlotS(p)
        \/ Look2(o, p) /\ op' = Sp(o, "cmp") \o " " \o SlotS(p)
        \/ Lower(o, p) /\ op' = Sp(o, "lower") \o " " \o SlotS(p)
        \/ \E q \in Slot : Plus(o, p, q) /\ op' = Sp(o, "plus") \o " " \o SlotS(p) \o " " \o SlotS(q)
        \/ \E pos, n \in 0..MaxLen :
           \/ Substr(o, p, n, pos) /\ op' = Sp(o, "substr") \o " " \o SlotS(p) \o " " \o T(n) \o " " \o T(pos)
           \/ IsLive(p) /\ Splice(o, pos, n, Val(p)) /\ op' = Sp(o, "spls") \o " " \o T(pos) \o " " \o T(n) \o " " \o SlotS(p)
     \/ \E i \in 0..(Len(Val(o)) - 1) : Write(o, i, 97) /\ op' = Sp(o, "set") \o " " \o T(i) \o " 97"
     \/ \E i \in 0..Len(Val(o)) : Cat(o, Tl(Val(o), i)) /\ op' = Sp(o, "appown") \o " " \o T(i)

SearchOps ==
  \E o \in Slot :
     \/ \E xs \in Words(MaxLen) : From(o, xs) /\ op' = Sp(o, "fromc") \o " " \o H(xs)
     \/ Delete(o) /\ op' = Sp(o, "delete")
     \/ \E xs \in Words(3) : \E i \in 0..(Len(Val(o)) + 2) :
        \/ Look(o) /\ op' \in {Sp(o, "finds") \o " " \o H(xs) \o " " \o T(i), Sp(o, "findc") \o " " \o H(xs) \o " " \o T(i) \o " 0"}
        \/ i = 0 /\ Look(o) /\ op' = Sp(o, "findall") \o " " \o H(xs) \o " 0"
        \/ i = 0 /\ \E ys \in Words(2) : Replace(o, xs, ys) /\ op' = Sp(o, "repl") \o " " \o H(xs) \o " " \o H(ys)
     \/ \E i \in 0..(Len(Val(o)) + 2) : Look(o) /\ op' = Sp(o, "findch") \o " 97 " \o T(i)

Next == IF Search THEN SearchOps ELSE Content
Spec == MCInit /\ [][Next]_<<st, op>>
View == st
EdgeOut == Small' => PrintT(<<"EDGE", ToJson(st), op', ToJson(st')>>)
=============================================================================
