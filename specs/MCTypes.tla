------------------------------- MODULE MCTypes -------------------------------
(* Every type up to a depth, and the laws of the transformations. *)
EXTENDS Types, TLC, Json
CONSTANTS Bases, Depth, Words
VARIABLES t, op
Init == t \in { <<b>> : b \in Bases } /\ op = "base"
Next == /\ Len(t) <= Depth
        /\ \E k \in Words : Can(k, t) /\ t' = Made(k, t) /\ op' = k
Spec == Init /\ [][Next]_<<t, op>>
View == t
EdgeOut == PrintT(<<"EDGE", ToJson(t), ToJson(op'), ToJson(t')>>)
Canonical == /\ \A i \in 1..Len(t) - 1 :
                   /\ t[i] = "c" => t[i + 1] \notin {"c", "a", "a2", "a3", "l", "r"} \cup Funs
                   /\ t[i] = "v" => t[i + 1] \notin {"c", "v", "a", "a2", "a3", "l", "r"} \cup Funs
                   /\ t[i] \in Refs => i = 1 \/ t[i - 1] \in Funs
             /\ Qualified(Q(t), Bare(t)) = t
Laws == /\ RemoveReference(RemoveReference(t)) = RemoveReference(t) /\ Decay(Decay(t)) = Decay(t) /\ Naked(Naked(t)) = Naked(t)
        /\ RemovePointer(AddPointer(t)) = RemoveReference(t) /\ IsPointer(AddPointer(t)) /\ ~IsPointer(RemoveAllPointers(t))
        /\ (IsPointer(t) => IsPointerOf(t, RemovePointer(t)) /\ AddPointer(RemovePointer(t)) = Bare(t))
        /\ Without({"c"}, Without({"v"}, t)) = Without(Quals, t)
        /\ ~IsVolatile(Without({"v"}, t)) /\ ~IsRef(Decay(t)) /\ ~IsArray(Decay(t)) /\ ~IsFunction(Decay(t)) /\ Q(Decay(t)) = {}
        /\ (CanRef(t) => /\ Reference("l", Reference("r", t)) = Reference("l", t) /\ Reference("r", Reference("l", t)) = Reference("l", t)
                         /\ MoveOf(Reference("l", t)) = MoveOf(t) /\ ForwardOf(Reference("l", t)) = Reference("l", t))
Kinds == LET n == [x \in {"ptr", "ref", "arr", "fun"} |-> CASE x = "ptr" -> IsPointer(t) [] x = "ref" -> IsRef(t) [] x = "arr" -> IsArray(t) [] OTHER -> IsFunction(t)]
         IN \A x, y \in DOMAIN n : n[x] /\ n[y] => x = y
=============================================================================
