------------------------------- MODULE RBTree --------------------------------
(* The balancing algorithm of containers/tree.h on tree shapes: a tree is <<>> (missing child) or
   <<colour, left, right>>; keys are implicit (in-order position). Insertion and removal follow
   repairInserted and repairRemoved case by case, bottom up. TLC checks that every shape reachable with
   at most MaxN nodes satisfies the balance rules, and emits every edge (insert at gap g / remove node i)
   so that each is replayed into the real code. *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANT MaxN
VARIABLES t, op

R == 1
B == 0
Nil == <<>>
Node(c, x, y) == <<c, x, y>>
C(x) == IF x = Nil THEN B ELSE x[1]
L(x) == x[2]
Rt(x) == x[3]
Black(x) == C(x) = B
Red(x) == C(x) = R
Paint(c, x) == <<c, x[2], x[3]>>
RECURSIVE Size(_)
Size(x) == IF x = Nil THEN 0 ELSE 1 + Size(L(x)) + Size(Rt(x))

(* ---- insertion: a red-red conflict between a child and a grandchild is repaired at the grandparent *)
Conflict(x) == Red(x) /\ (Red(L(x)) \/ Red(Rt(x)))
FixL(c, x, y) ==        \* the left child x may be in conflict
    IF c = B /\ Red(x) /\ Conflict(x) THEN
        IF Red(y) THEN Node(R, Paint(B, x), Paint(B, y))                             \* case 2
        ELSE IF Red(Rt(x))                                                            \* case 3
             THEN Node(B, Node(R, L(x), L(Rt(x))), Node(R, Rt(Rt(x)), y))
             ELSE Node(B, L(x), Node(R, Rt(x), y))
    ELSE Node(c, x, y)
FixR(c, x, y) ==
    IF c = B /\ Red(y) /\ Conflict(y) THEN
        IF Red(x) THEN Node(R, Paint(B, x), Paint(B, y))
        ELSE IF Red(L(y))
             THEN Node(B, Node(R, x, L(L(y))), Node(R, Rt(L(y)), Rt(y)))
             ELSE Node(B, Node(R, x, L(y)), Rt(y))
    ELSE Node(c, x, y)
RECURSIVE Ins(_, _)     \* insert a red node at gap g
Ins(x, g) ==
    IF x = Nil THEN Node(R, Nil, Nil)
    ELSE LET n == Size(L(x)) IN
         IF g <= n THEN FixL(C(x), Ins(L(x), g), Rt(x)) ELSE FixR(C(x), L(x), Ins(Rt(x), g - n - 1))
InsertShape(x, g) == Paint(B, Ins(x, g))

(* ---- removal: <<tree, deficit>>; deficit = the subtree lost one black level *)
RECURSIVE DefL(_, _, _), DefR(_, _, _)
DefL(c, x, y) ==        \* left subtree x has a deficit, y is its sibling
    IF Red(y) THEN LET d == DefL(R, x, L(y)) IN <<Node(B, d[1], Rt(y)), FALSE>>      \* case 1
    ELSE IF Black(L(y)) /\ Black(Rt(y)) THEN <<Node(B, x, Paint(R, y)), c = B>>      \* case 2
    ELSE IF Red(L(y))                                                                 \* cases 3 and 4
         THEN <<Node(c, Node(B, x, L(L(y))), Node(B, Rt(L(y)), Rt(y))), FALSE>>
         ELSE <<Node(c, Node(B, x, L(y)), Paint(B, Rt(y))), FALSE>>
DefR(c, x, y) ==
    IF Red(x) THEN LET d == DefR(R, Rt(x), y) IN <<Node(B, L(x), d[1]), FALSE>>
    ELSE IF Black(L(x)) /\ Black(Rt(x)) THEN <<Node(B, Paint(R, x), y), c = B>>
    ELSE IF Red(Rt(x))
         THEN <<Node(c, Node(B, L(x), L(Rt(x))), Node(B, Rt(Rt(x)), y)), FALSE>>
         ELSE <<Node(c, Paint(B, L(x)), Node(B, Rt(x), y)), FALSE>>
RECURSIVE Del(_, _)     \* remove the node at in-order position i (0-based)
Del(x, i) ==
    LET n == Size(L(x)) IN
    IF i < n THEN LET d == Del(L(x), i) IN
                  IF d[2] THEN DefL(C(x), d[1], Rt(x)) ELSE <<Node(C(x), d[1], Rt(x)), FALSE>>
    ELSE IF i > n THEN LET d == Del(Rt(x), i - n - 1) IN
                       IF d[2] THEN DefR(C(x), L(x), d[1]) ELSE <<Node(C(x), L(x), d[1]), FALSE>>
    ELSE IF L(x) # Nil /\ Rt(x) # Nil THEN                    \* replaced by its successor
         LET d == Del(Rt(x), 0) IN
         IF d[2] THEN DefR(C(x), L(x), d[1]) ELSE <<Node(C(x), L(x), d[1]), FALSE>>
    ELSE LET v == IF L(x) # Nil THEN L(x) ELSE Rt(x) IN       \* at most one child
         IF Red(x) THEN <<v, FALSE>>
         ELSE IF Red(v) THEN <<Paint(B, v), FALSE>> ELSE <<v, TRUE>>
RemoveShape(x, i) == LET d == Del(x, i) IN IF d[1] = Nil THEN Nil ELSE Paint(B, d[1])

Init == t = Nil /\ op = "init"
InsertAt(g) == Size(t) < MaxN /\ g \in 0..Size(t) /\ t' = InsertShape(t, g) /\ op' = "i " \o ToString(g)
RemoveAt(i) == i \in 0..(Size(t) - 1) /\ t' = RemoveShape(t, i) /\ op' = "r " \o ToString(i)
Next == \E k \in 0..MaxN : InsertAt(k) \/ RemoveAt(k)
Spec == Init /\ [][Next]_<<t, op>>

RECURSIVE BlackH(_), NoRedRed(_), Depth(_), Pow2(_)
BlackH(x) == IF x = Nil THEN 0
             ELSE LET a == BlackH(L(x)) b == BlackH(Rt(x)) IN
                  IF a = -1 \/ a # b THEN -1 ELSE a + (IF C(x) = B THEN 1 ELSE 0)
NoRedRed(x) == x = Nil \/ (~Conflict(x) /\ NoRedRed(L(x)) /\ NoRedRed(Rt(x)))
Depth(x) == IF x = Nil THEN 0 ELSE 1 + (IF Depth(L(x)) > Depth(Rt(x)) THEN Depth(L(x)) ELSE Depth(Rt(x)))
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)

Balanced == Black(t) /\ BlackH(t) # -1 /\ NoRedRed(t)
Shallow  == Pow2(Depth(t)) <= (Size(t) + 1) * (Size(t) + 1)
SizeStep == [][\/ Size(t') = Size(t) + 1 \/ Size(t') = Size(t) - 1]_t

View == t
EdgeOut == PrintT(<<"EDGE", ToJson(t), op', ToJson(t')>>)
=============================================================================
