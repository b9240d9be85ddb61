------------------------------ MODULE MCAtomic ------------------------------
(* Threads call operations on atomic objects, each takes effect at one point between its call and *)
(* its return.  With Split = TRUE a read-modify-write is a load and a later store: that model      *)
(* must not satisfy the invariants (it is run as a negative control).                              *)
EXTENDS Atomic, FiniteSets, TLC

CONSTANTS Threads, Base, Limbs, MaxOps, Kinds1, Args, Split

Nat2L(n) == [j \in 1..Limbs |-> (n \div (Base ^ (j - 1))) % Base]
L2Nat(x) == LET f[j \in 0..Limbs] == IF j = 0 THEN 0 ELSE f[j - 1] + x[j] * (Base ^ (j - 1)) IN f[Limbs]
Mod == Base ^ Limbs

(* the limb arithmetic is arithmetic modulo the width *)
ASSUME \A x \in 0..Mod - 1 : \A y \in 0..Mod - 1 :
    /\ L2Nat(AddL(Nat2L(x), Nat2L(y), Base)) = (x + y) % Mod
    /\ L2Nat(SubL(Nat2L(x), Nat2L(y), Base)) = (x + Mod - y) % Mod
    /\ y < Base => L2Nat(MulL(Nat2L(x), y, Base)) = (x * y) % Mod

Ops == { [k |-> k, a |-> Nat2L(a), sc |-> 1] : k \in Kinds1, a \in Args }
OpSet == { op \in Ops : (op.k \in Loads \cup {"preinc", "postinc", "predec", "postdec"}) => op.a = Nat2L(1) }

VARIABLES val,      \* value of the object
          pc,       \* per thread: "idle", "called", "loaded" (Split only) or "took"
          cur,      \* current operation of each thread
          seen,     \* what the operation observed
          n,        \* operations started by each thread
          eff,      \* effects so far, in order: <<thread, operation, result>>
          ret       \* returned results <<operation, result>>
vars == <<val, pc, cur, seen, n, eff, ret>>

NoOp == [k |-> "none", a |-> Nat2L(0), sc |-> 1]
Init == /\ val = Nat2L(Mod - 1)
        /\ pc = [t \in Threads |-> "idle"] /\ cur = [t \in Threads |-> NoOp]
        /\ seen = [t \in Threads |-> Nat2L(0)] /\ n = [t \in Threads |-> 0]
        /\ eff = <<>> /\ ret = <<>>
Call(t) == /\ pc[t] = "idle" /\ n[t] < MaxOps
           /\ \E op \in OpSet : cur' = [cur EXCEPT ![t] = op]
           /\ pc' = [pc EXCEPT ![t] = "called"] /\ n' = [n EXCEPT ![t] = @ + 1]
           /\ UNCHANGED <<val, seen, eff, ret>>
Take(t) == /\ pc[t] = "called" /\ ~(Split /\ cur[t].k \in RMW)
           /\ val' = After(cur[t], val, Base)
           /\ seen' = [seen EXCEPT ![t] = val]
           /\ eff' = eff \o << <<t, cur[t], Result(cur[t], val, Base)>> >>
           /\ pc' = [pc EXCEPT ![t] = "took"] /\ UNCHANGED <<cur, n, ret>>
SplitLoad(t) == /\ Split /\ pc[t] = "called" /\ cur[t].k \in RMW
                /\ seen' = [seen EXCEPT ![t] = val] /\ pc' = [pc EXCEPT ![t] = "loaded"]
                /\ UNCHANGED <<val, cur, n, eff, ret>>
SplitStore(t) == /\ pc[t] = "loaded"
                 /\ val' = After(cur[t], seen[t], Base)
                 /\ eff' = eff \o << <<t, cur[t], Result(cur[t], seen[t], Base)>> >>
                 /\ pc' = [pc EXCEPT ![t] = "took"] /\ UNCHANGED <<cur, seen, n, ret>>
Return(t) == /\ pc[t] = "took" /\ pc' = [pc EXCEPT ![t] = "idle"]
             /\ ret' = ret \o << <<cur[t], Result(cur[t], seen[t], Base)>> >>
             /\ UNCHANGED <<val, cur, seen, n, eff>>
Next == \E t \in Threads : Call(t) \/ Take(t) \/ SplitLoad(t) \/ SplitStore(t) \/ Return(t)
Spec == Init /\ [][Next]_vars

Delta(op) == IF op.k \in Adds THEN L2Nat(Amount(op, val, Base))
             ELSE IF op.k \in Subs THEN (Mod - L2Nat(Amount(op, val, Base))) % Mod ELSE 0
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Delta(s[1][2]) + Sum(Tail(s))
Sets(s) == { j \in DOMAIN s : s[j][2].k \in {"store", "storer", "assign", "xchg"} }

(* no update is lost or duplicated: the value is the last value set plus everything added since *)
NoLostUpdate ==
    LET last == IF Sets(eff) = {} THEN 0 ELSE CHOOSE j \in Sets(eff) : \A k \in Sets(eff) : k <= j
        base == IF last = 0 THEN Mod - 1 ELSE L2Nat(eff[last][2].a)
        sum  == Sum(SubSeq(eff, last + 1, Len(eff)))
    IN  L2Nat(val) = (base + sum) % Mod
(* tickets are unique: while only increments happen, no two of them return the same value *)
UniqueTickets ==
    (\A j \in DOMAIN eff : eff[j][2].k \in {"postinc", "preinc"} \cup Loads) =>
        \A j, k \in DOMAIN eff : (j < k /\ eff[j][2].k = eff[k][2].k /\ eff[j][2].k \notin Loads /\ Len(eff) < Mod) => eff[j][3] # eff[k][3]
(* an exchanged value is handed to exactly one later operation *)
ChainOfExchanges ==
    (\A j \in DOMAIN eff : eff[j][2].k = "xchg") =>
        \A j \in DOMAIN eff : eff[j][3] = IF j = 1 THEN Nat2L(Mod - 1) ELSE eff[j - 1][2].a
(* what is returned is what took effect *)
ReturnedTookEffect == \A j \in DOMAIN ret : \E k \in DOMAIN eff : eff[k][2] = ret[j][1] /\ eff[k][3] = ret[j][2]
=============================================================================
