-------------------------------- MODULE Tree ---------------------------------
(* Ordered trees (containers/tree.h). Abstractly a tree is a sequence kept in ascending order of its
   comparator; items that compare equal may appear in any relative order. An item is an integer whose
   sort key is item \div Div (so several distinguishable items can share a key); Rev selects a
   comparator with the opposite order.
   The balance part (property C07) is stated on the observed node structure: sh = [root, l, r, p, c]
   gives, for the nodes numbered in in-order, left child, right child, parent (0 = none) and colour. *)
EXTENDS Slots

CONSTANTS Div, Rev

Key(x)    == x \div Div
KLt(a, b) == IF Rev THEN a > b ELSE a < b
Ordered(s) == \A j \in 1..(Len(s) - 1) : ~KLt(Key(s[j + 1]), Key(s[j]))
Hits(s, k)  == {j \in DOMAIN s : Key(s[j]) = k}
Matching(s, k) == SelectSeq(s, LAMBDA x : Key(x) = k)

(* positions at which x may go: nothing after it in front, nothing before it behind; in an ordered sequence an interval *)
GapsAre(s, x, G) == \A i \in 0..Len(s) :
    (i \in G) <=> ((\A j \in 1..i : ~KLt(Key(x), Key(s[j]))) /\ (\A k \in (i + 1)..Len(s) : ~KLt(Key(s[k]), Key(x))))
Gaps(s, x) == Len(SelectSeq(s, LAMBDA y : KLt(Key(y), Key(x)))) .. Len(SelectSeq(s, LAMBDA y : ~KLt(Key(x), Key(y))))

RECURSIVE InsAll(_, _)
InsAll(s, xs) ==        \* the set of possible outcomes of inserting xs one after the other
    IF xs = <<>> THEN {s}
    ELSE UNION {InsAll(InsertAtSeq(s, i, <<Head(xs)>>), Tail(xs)) : i \in Gaps(s, Head(xs))}
RECURSIVE InsUnique(_, _)
InsUnique(s, xs) ==
    IF xs = <<>> THEN {s}
    ELSE IF Hits(s, Key(Head(xs))) # {} THEN InsUnique(s, Tail(xs))
    ELSE UNION {InsUnique(InsertAtSeq(s, i, <<Head(xs)>>), Tail(xs)) : i \in Gaps(s, Head(xs))}
RECURSIVE Repl(_, _)
Repl(s, xs) ==          \* replaces one item with that key, or inserts
    IF xs = <<>> THEN {s}
    ELSE LET x == Head(xs) IN
         IF Hits(s, Key(x)) # {} THEN UNION {Repl([s EXCEPT ![j] = x], Tail(xs)) : j \in Hits(s, Key(x))}
         ELSE UNION {Repl(InsertAtSeq(s, i, <<x>>), Tail(xs)) : i \in Gaps(s, x)}

Insert(o, xs)       == IsLive(o) /\ \E s \in InsAll(Val(o), xs) : Put(o, s)
InsertUnique(o, xs) == IsLive(o) /\ \E s \in InsUnique(Val(o), xs) : Put(o, s)
Replace(o, xs)      == IsLive(o) /\ \E s \in Repl(Val(o), xs) : Put(o, s)
RemoveAt(o, i)      == IsLive(o) /\ i \in 0..(Len(Val(o)) - 1) /\ Put(o, RemoveAtSeq(Val(o), i, 1))
(* a write through an iterator that leaves the sort key as it is *)
WriteIt(o, i, x)    == IsLive(o) /\ i \in 0..(Len(Val(o)) - 1) /\ Key(x) = Key(Val(o)[i + 1]) /\ Put(o, SetAtSeq(Val(o), i, x))
RemoveEnd(o)        == IsLive(o) /\ UNCHANGED st
RemoveKey(o, k) ==
    /\ IsLive(o)
    /\ IF Hits(Val(o), k) = {} THEN UNCHANGED st
       ELSE \E j \in Hits(Val(o), k) : Put(o, RemoveAtSeq(Val(o), j - 1, 1))
(* many at once, in any order *)
Bulk(o, n)       == Div = 1 /\ IsLive(o) /\ Val(o) = <<>> /\ Put(o, [j \in 1..n |-> IF Rev THEN n + 1 - j ELSE j])
BulkRemove(o, m) == Div = 1 /\ IsLive(o) /\ Put(o, SelectSeq(Val(o), LAMBDA x : x % m # 0))
Look(o) == IsLive(o) /\ UNCHANGED st

TypeOK == SlotsTypeOK /\ \A o \in Slot : Ordered(st[o].v)

(* ---------------------------------------------------------------- balance *)
RECURSIVE BH(_, _)      \* black height of the subtree at node i, -1 if unequal
BH(sh, i) ==
    IF i = 0 THEN 0
    ELSE LET a == BH(sh, sh.l[i]) b == BH(sh, sh.r[i]) IN
         IF a = -1 \/ a # b THEN -1 ELSE a + (IF sh.c[i] = 0 THEN 1 ELSE 0)
RECURSIVE Depth(_, _)
Depth(sh, i) == IF i = 0 THEN 0 ELSE 1 + Max2(Depth(sh, sh.l[i]), Depth(sh, sh.r[i]))
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)

Linked(sh, n) ==
    /\ Len(sh.l) = n /\ Len(sh.r) = n /\ Len(sh.p) = n /\ Len(sh.c) = n
    /\ IF n = 0 THEN sh.root = 0 ELSE sh.root \in 1..n /\ sh.p[sh.root] = 0
    /\ \A i \in 1..n :
         /\ sh.l[i] \in 0..(i - 1) /\ (sh.l[i] # 0 => sh.p[sh.l[i]] = i)
         /\ (sh.r[i] = 0 \/ sh.r[i] \in (i + 1)..n) /\ (sh.r[i] # 0 => sh.p[sh.r[i]] = i)
         /\ (i # sh.root => sh.p[i] # 0 /\ (sh.l[sh.p[i]] = i \/ sh.r[sh.p[i]] = i))
RedBlack(sh, n) ==
    n > 0 =>
      /\ sh.c[sh.root] = 0
      /\ \A i \in 1..n : sh.c[i] \in {0, 1}
      /\ \A i \in 1..n : sh.c[i] = 1 => /\ (sh.l[i] # 0 => sh.c[sh.l[i]] = 0)
                                        /\ (sh.r[i] # 0 => sh.c[sh.r[i]] = 0)
      /\ BH(sh, sh.root) # -1
(* depth <= 2 log2(n + 1), i.e. 2^depth <= (n + 1)^2 *)
Shallow(sh, n) == Pow2(Depth(sh, sh.root)) <= (n + 1) * (n + 1)
Balanced(sh, n) == Linked(sh, n) /\ RedBlack(sh, n) /\ Shallow(sh, n)
=============================================================================
