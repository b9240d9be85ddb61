------------------------------- MODULE Storage -------------------------------
(* Blocks of storage, the allocators that hand them out and the objects that hold them.

   Every object slot is bound to one allocator: the one it was created with, or the one it took over together
   with the contents of the object it was moved from. Whatever an operation on an object obtains and keeps
   comes from the allocator that object is bound to; it goes back to that same allocator, exactly once, no
   later than the destruction of the object. *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES held,         \* held[b] = [a, o]: the block b came from allocator a and belongs to slot o
          bind,         \* bind[o]: the allocator of the object in slot o; NoAlloc when there is none
          up            \* allocators that exist

NoAlloc == -1
Tmp     == 0            \* owner of what an operation in progress has obtained
stvars  == <<held, bind, up>>

(* one call to an allocator *)
Ev(k, a, b) == <<k, a, b>>
EvOk(S, c) ==
    LET k == c[1] a == c[2] b == c[3]
    IN  CASE k = 0 -> a \in S.up /\ b \notin DOMAIN S.held
          [] k = 1 -> a \in S.up /\ b \in DOMAIN S.held /\ S.held[b].a = a
          [] k = 2 -> a \notin S.up
          [] k = 3 -> a \in S.up /\ \A x \in DOMAIN S.held : S.held[x].a # a
          [] OTHER -> FALSE
EvDo(S, c) ==
    LET k == c[1] a == c[2] b == c[3]
    IN  CASE k = 0 -> [S EXCEPT !.held = [x \in DOMAIN @ \cup {b} |-> IF x = b THEN [a |-> a, o |-> Tmp] ELSE @[x]]]
          [] k = 1 -> [S EXCEPT !.held = [x \in DOMAIN @ \ {b} |-> @[x]]]
          [] k = 2 -> [S EXCEPT !.up = @ \cup {a}]
          [] OTHER -> [S EXCEPT !.up = @ \ {a}]
Bad == [held |-> [x \in {0} |-> NoAlloc], up |-> {}]
RECURSIVE Fold(_, _, _)
Fold(S, cs, j) == IF j > Len(cs) THEN S ELSE IF EvOk(S, cs[j]) THEN Fold(EvDo(S, cs[j]), cs, j + 1) ELSE Bad

Give(h, from, to) == [x \in DOMAIN h |-> IF h[x].o = from THEN [h[x] EXCEPT !.o = to] ELSE h[x]]
Of(h, o)          == {x \in DOMAIN h : h[x].o = o}

(* an operation on slot o makes the calls cs and leaves the object bound to allocator m; src is the slot it
   takes everything from (o itself when it does not) *)
Op(o, src, m, cs) ==
    LET S == Fold([held |-> held, up |-> up], cs, 1)
        h == Give(Give(S.held, Tmp, o), src, o)
    IN  /\ S # Bad
        /\ (m = NoAlloc => Of(h, o) = {}) /\ (m # NoAlloc => m \in S.up)
        /\ \A x \in Of(h, o) : h[x].a = m
        /\ held' = h
        /\ up' = S.up
        /\ bind' = [bind EXCEPT ![o] = m, ![src] = IF src = o THEN m ELSE NoAlloc]
=============================================================================
