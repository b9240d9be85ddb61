------------------------------- MODULE MCValues -------------------------------
EXTENDS Values, TLC, Json
CONSTANTS N, Domain
VARIABLE op
Init == vals \in [1..N -> Domain] /\ op = <<"fill">>
Next == \E i, j \in 1..N : \/ Swap(i, j) /\ op' = <<"swap", i, j>>
                           \/ Compare(i, j) /\ op' = <<"cmp", i, j>>
Spec == Init /\ [][Next]_<<vals, op>>
View == vals
EdgeOut == PrintT(<<"EDGE", ToJson(vals), ToJson(op'), ToJson(vals')>>)
Count(x) == Len(SelectSeq(vals, LAMBDA y : y = x))
Bag == [][\A x \in Domain : Len(SelectSeq(vals', LAMBDA y : y = x)) = Count(x)]_<<vals, op>>
Order == \A i, j, k \in 1..N : /\ Sign(vals[i], vals[j]) = -Sign(vals[j], vals[i])
                               /\ (Sign(vals[i], vals[j]) >= 0 /\ Sign(vals[j], vals[k]) >= 0 => Sign(vals[i], vals[k]) >= 0)
=============================================================================
