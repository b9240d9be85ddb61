------------------------------- MODULE MCNames -------------------------------
(* Every way to make a few names out of short strings and of each other. *)
EXTENDS Names, TLC, Json, FiniteSets

CONSTANTS Letters, MaxLit, MaxNames, MaxJoin, MaxLen
VARIABLE op
Strings == UNION { [1..k -> Letters] : k \in 0..MaxLit }
Ids     == UNION { [1..k -> DOMAIN names] : k \in 0..MaxJoin }
Init == NInit /\ op = <<>>
Next == /\ Len(names) < MaxNames
        /\ \/ \E v \in Strings : \/ Literal(v) /\ op' = <<"lit", v>>
                                 \/ Held(v) /\ op' = <<"held", v>>
                                 \/ \E n \in 0..Len(v) : Prefix(v, n) /\ op' = <<"prefix", v, n>>
           \/ \E i \in DOMAIN names : Same(i) /\ op' = <<"same", i>>
           \/ \E is \in Ids : Concat(is) /\ Len(names'[Len(names')].v) <= MaxLen /\ op' = <<"cat", is>>
Spec == Init /\ [][Next]_<<names, op>>
View == names
EdgeOut == PrintT(<<"EDGE", ToJson(names), ToJson(op'), ToJson(names')>>)
(* joining is associative, the empty join is the empty name, a join has the sum of the lengths *)
RECURSIVE Sum(_)
Sum(is) == IF is = <<>> THEN 0 ELSE Len(names[Head(is)].v) + Sum(Tail(is))
Laws == \A is, js \in Ids : /\ Joined(names, is \o js) = Joined(names, is) \o Joined(names, js)
                            /\ Len(Joined(names, is)) = Sum(is)
Keep == [][\A i \in DOMAIN names : names'[i] = names[i]]_<<names, op>>
=============================================================================
