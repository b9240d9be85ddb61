------------------------------- MODULE MCLife --------------------------------
(* Containers as owners of places: every operation of a container is one of these life event sequences.
   Checked: a container operation never violates the life cycle, every living element has exactly one owner. *)
EXTENDS Life

CONSTANTS Owners, Places
VARIABLE own

Free == Places \ alive
B(p) == 3 * p
D(p) == 3 * p + 1
U(p) == 3 * p + 2
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
All(S, F(_)) == LET q == SeqOf(S) IN Flat([j \in DOMAIN q |-> F(q[j])])

Init == LifeInit /\ own = [o \in Owners |-> {}]
Insert(o) == \E p \in Free : LifeSteps(<<B(p)>>) /\ own' = [own EXCEPT ![o] = @ \cup {p}]
Remove(o) == \E p \in own[o] : LifeSteps(<<D(p)>>) /\ own' = [own EXCEPT ![o] = @ \ {p}]
Write(o)  == \E p \in own[o] : \E q \in Free : LifeSteps(<<B(q), U(p), U(q), D(q)>>) /\ UNCHANGED own
Clear(o)  == LifeSteps(All(own[o], LAMBDA p : <<D(p)>>)) /\ own' = [own EXCEPT ![o] = {}]
Move(o, q) == own[o] = {} /\ UNCHANGED alive /\ own' = [own EXCEPT ![o] = own[q], ![q] = {}]
Copy(o, q) == /\ own[o] = {}
              /\ \E S \in SUBSET Free : Cardinality(S) = Cardinality(own[q])
                    /\ LifeSteps(All(own[q], LAMBDA p : <<U(p)>>) \o All(S, LAMBDA p : <<B(p)>>))
                    /\ own' = [own EXCEPT ![o] = S]
Grow(o)   == \E S \in SUBSET Free : Cardinality(S) = Cardinality(own[o])
                    /\ LifeSteps(All(S, LAMBDA p : <<B(p)>>) \o All(own[o], LAMBDA p : <<U(p), D(p)>>))
                    /\ own' = [own EXCEPT ![o] = S]
Next == \E o, q \in Owners : Insert(o) \/ Remove(o) \/ Write(o) \/ Clear(o) \/ Grow(o) \/ (o # q /\ (Move(o, q) \/ Copy(o, q)))
Spec == Init /\ [][Next]_<<alive, own>>

TypeOK    == alive \subseteq Places
OneOwner  == \A o, q \in Owners : o # q => own[o] \cap own[q] = {}
NoneLost  == alive = UNION {own[o] : o \in Owners}
(* an operation that breaks the life cycle is not a step: double destruction, use after destruction *)
Rejects   == \A p \in Places : Run(alive, <<D(p), D(p)>>) = Wrong /\ (p \in alive => Run(alive, <<D(p), U(p)>>) = Wrong /\ Run(alive, <<B(p)>>) = Wrong)
=============================================================================
