------------------------------ MODULE MCStorage ------------------------------
(* Containers as clients of allocators. Every operation is one sequence of calls; checked: storage never
   changes hands between allocators, nothing is lost, and a client that breaks the rules is not a step. *)
EXTENDS Storage, TLC, Json

CONSTANTS Slots, Blocks, Users, MaxN, Owned
VARIABLES st, op        \* st[o]: "none", "moved" or the number of elements

Slot  == 1..Slots
Free  == Blocks \ DOMAIN held
N(o)  == Cardinality(Of(held, o))
Own(o) == 10 + o
RECURSIVE Seqs(_)
Seqs(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Seqs(S \ {x})
Calls(k, a, S) == LET q == Seqs(S) IN [j \in DOMAIN q |-> Ev(k, a, q[j])]
Least(S, n) == CHOOSE R \in SUBSET S : Cardinality(R) = n /\ \A x \in R : \A y \in S \ R : x < y
T(n) == ToString(n)
L(w, o) == w \o " " \o T(o - 1)
Live(o) == st[o] \notin {"none", "moved"}
Set(o, k) == st' = [st EXCEPT ![o] = k]

Init == held = [x \in {} |-> 0] /\ bind = [o \in Slot |-> NoAlloc] /\ up = 0..Users /\ st = [o \in Slot |-> "none"] /\ op = "init"

New(o) == /\ st[o] = "none" /\ Set(o, "live") /\ op' = L("new", o)
          /\ IF Owned THEN Op(o, o, Own(o), <<Ev(2, Own(o), 0)>>)
             ELSE \E m \in 0..Users : Op(o, o, m, <<>>)
(* a node is added *)
Ins(o, x) == /\ Live(o) /\ N(o) < MaxN /\ Free # {} /\ UNCHANGED st /\ op' = L("ins", o) \o " " \o T(x)
             /\ Op(o, o, bind[o], Calls(0, bind[o], Least(Free, 1)))
(* everything is moved to a larger block *)
Grow(o)   == /\ Live(o) /\ N(o) > 0 /\ Cardinality(Free) >= 1 /\ UNCHANGED st /\ op' = L("ins", o) \o " 9"
             /\ Op(o, o, bind[o], Calls(0, bind[o], Least(Free, 1)) \o Calls(1, bind[o], Of(held, o)))
Rem(o)    == /\ Live(o) /\ UNCHANGED st /\ op' = L("rem", o)
             /\ \E S \in {S \in SUBSET Of(held, o) : Cardinality(S) <= 1} : Op(o, o, bind[o], Calls(1, bind[o], S))
Clr(o)    == /\ Live(o) /\ UNCHANGED st /\ op' = L("clr", o)
             /\ Op(o, o, bind[o], Calls(1, bind[o], Of(held, o)))
Delete(o) == /\ st[o] # "none" /\ Set(o, "none") /\ op' = L("delete", o)
             /\ Op(o, o, NoAlloc, Calls(1, bind[o], Of(held, o)) \o (IF Owned THEN <<Ev(3, Own(o), 0)>> ELSE <<>>))
Copy(o, p) == /\ st[o] = "none" /\ Live(p) /\ Set(o, "live") /\ op' = L("copy", o) \o " " \o T(p - 1) /\ Cardinality(Free) >= N(p)
              /\ IF Owned THEN Op(o, o, Own(o), <<Ev(2, Own(o), 0)>> \o Calls(0, Own(o), Least(Free, N(p))))
                 ELSE \E m \in {0, bind[p]} : Op(o, o, m, Calls(0, m, Least(Free, N(p))))
Assign(o, p) == /\ Live(o) /\ Live(p) /\ o # p /\ UNCHANGED st /\ op' = L("assign", o) \o " " \o T(p - 1)
                /\ Cardinality(Free) >= N(p)
                /\ Op(o, o, bind[o], Calls(1, bind[o], Of(held, o)) \o Calls(0, bind[o], Least(Free, N(p))))
Move(o, p) == /\ ~Owned /\ st[o] = "none" /\ Live(p) /\ op' = L("move", o) \o " " \o T(p - 1)
              /\ st' = [st EXCEPT ![o] = "live", ![p] = "moved"] /\ Op(o, p, bind[p], <<>>)
MoveAssign(o, p) == /\ ~Owned /\ st[o] # "none" /\ Live(p) /\ o # p /\ op' = L("massign", o) \o " " \o T(p - 1)
                    /\ st' = [st EXCEPT ![o] = "live", ![p] = "moved"]
                    /\ Op(o, p, bind[p], Calls(1, bind[o], Of(held, o)))
Next == \E o \in Slot : \/ New(o) \/ Grow(o) \/ Rem(o) \/ Clr(o) \/ Delete(o) \/ \E x \in 1..2 : Ins(o, x)
                        \/ \E p \in Slot : Copy(o, p) \/ Assign(o, p) \/ Move(o, p) \/ MoveAssign(o, p)
Spec == Init /\ [][Next]_<<held, bind, up, st, op>>

OneAllocator == \A b \in DOMAIN held : held[b].a = bind[held[b].o]
NoneLost     == \A b \in DOMAIN held : held[b].o \in Slot /\ Live(held[b].o)
AliveOnly    == \A b \in DOMAIN held : held[b].a \in up
Unbound      == \A o \in Slot : Live(o) <=> bind[o] # NoAlloc
(* giving back twice, or to another allocator, or letting an allocator go that is still in use *)
Rejects == \A b \in DOMAIN held : LET S == [held |-> held, up |-> up] a == held[b].a
           IN  /\ Fold(S, <<Ev(1, a, b), Ev(1, a, b)>>, 1) = Bad
               /\ \A x \in up \ {a} : Fold(S, <<Ev(1, x, b)>>, 1) = Bad
               /\ Fold(S, <<Ev(3, a, 0)>>, 1) = Bad
               /\ Fold(S, <<Ev(0, a, b)>>, 1) = Bad
(* the graph that is replayed: kinds and numbers of blocks *)
View    == [o \in Slot |-> <<st[o], N(o)>>]
EdgeOut == PrintT(<<"EDGE", ToJson(View), op', ToJson(View')>>)
=============================================================================
