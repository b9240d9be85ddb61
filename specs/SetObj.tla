------------------------------- MODULE SetObj --------------------------------
(* Sets (containers/set.h): a mathematical set of items with distinct keys. The observable value of a
   set object is its items in ascending key order. An item is an integer whose sort key is
   item \div Div, so that it is visible WHICH of two items with equal key a set keeps. *)
EXTENDS Slots

CONSTANT Div

Key(x)  == x \div Div
Keys(s) == {Key(s[j]) : j \in DOMAIN s}
Elems(s) == {s[j] : j \in DOMAIN s}
(* an existing item stays *)
With(s, x) == IF Key(x) \in Keys(s) THEN s ELSE InsertAtSeq(s, Len(SelectSeq(s, LAMBDA y : Key(y) < Key(x))), <<x>>)
RECURSIVE WithAll(_, _)
WithAll(s, xs) == IF xs = <<>> THEN s ELSE WithAll(With(s, Head(xs)), Tail(xs))
Keep(s, K)    == SelectSeq(s, LAMBDA x : Key(x) \in K)
Drop(s, K)    == SelectSeq(s, LAMBDA x : Key(x) \notin K)
Get(s, k)     == CHOOSE x \in Elems(s) : Key(x) = k

UnionOf(s, t) == WithAll(s, t)
InterOf(s, t) == Keep(s, Keys(t))
DiffOf(s, t)  == Drop(s, Keys(t))

Add(o, xs)    == IsLive(o) /\ Put(o, WithAll(Val(o), xs))
Remove(o, k)  == IsLive(o) /\ Put(o, Drop(Val(o), {k}))
Union(o, p)   == IsLive(o) /\ IsLive(p) /\ Put(o, UnionOf(Val(o), Val(p)))
Inter(o, p)   == IsLive(o) /\ IsLive(p) /\ Put(o, InterOf(Val(o), Val(p)))
Diff(o, p)    == IsLive(o) /\ IsLive(p) /\ Put(o, DiffOf(Val(o), Val(p)))
PUnion(o, p, q) == IsNone(o) /\ IsLive(p) /\ IsLive(q) /\ Put(o, UnionOf(Val(p), Val(q)))
PInter(o, p, q) == IsNone(o) /\ IsLive(p) /\ IsLive(q) /\ Put(o, InterOf(Val(p), Val(q)))
PDiff(o, p, q)  == IsNone(o) /\ IsLive(p) /\ IsLive(q) /\ Put(o, DiffOf(Val(p), Val(q)))
(* many at once, in any order *)
Bulk(o, n)       == Div = 1 /\ IsLive(o) /\ Val(o) = <<>> /\ Put(o, [j \in 1..n |-> j])
BulkRemove(o, m) == Div = 1 /\ IsLive(o) /\ Put(o, SelectSeq(Val(o), LAMBDA x : x % m # 0))
Look(o)       == IsLive(o) /\ UNCHANGED st
Look2(o, p)   == IsLive(o) /\ IsLive(p) /\ UNCHANGED st

SubsetEq(s, t) == Keys(s) \subseteq Keys(t)
Same(s, t)     == Keys(s) = Keys(t)

Proper(s) == \A j \in 1..(Len(s) - 1) : Key(s[j]) < Key(s[j + 1])
TypeOK == SlotsTypeOK /\ \A o \in Slot : Proper(st[o].v)

(* laws of the algebra, checked on every reachable pair of values *)
Laws == \A o, p \in Slot :
    LET s == Val(o) t == Val(p) IN
    /\ Keys(UnionOf(s, t)) = Keys(s) \cup Keys(t)
    /\ Elems(UnionOf(s, t)) = Elems(s) \cup Elems(Drop(t, Keys(s)))
    /\ Keys(InterOf(s, t)) = Keys(s) \cap Keys(t)
    /\ Keys(DiffOf(s, t)) = Keys(s) \ Keys(t)
    /\ Proper(UnionOf(s, t)) /\ Proper(InterOf(s, t)) /\ Proper(DiffOf(s, t))
    /\ UnionOf(InterOf(s, t), DiffOf(s, t)) = s
    /\ Keys(UnionOf(s, t)) = Keys(UnionOf(t, s))
    /\ (SubsetEq(s, t) <=> Same(UnionOf(s, t), t))
    /\ DiffOf(s, s) = <<>> /\ InterOf(s, s) = s /\ UnionOf(s, s) = s
=============================================================================
