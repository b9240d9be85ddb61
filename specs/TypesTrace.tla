------------------------------ MODULE TypesTrace ------------------------------
EXTENDS Types, TraceBase

VARIABLE K
(* One event per type: the term it was made of, the term the compiler sees, and what the library answers. *)
TypeRow ==
  LET t == E.t IN
  /\ E.seen = t
  /\ E.ptr = IsPointer(t) /\ E.ref = IsRef(t) /\ E.vol = IsVolatile(t) /\ E.arr = IsArray(t) /\ E.fun = IsFunction(t) /\ E.void = IsVoid(t)
  /\ (Q(t) = {} => E.integ = IsIntegral(t))
  /\ E.same
  /\ E.rp = RemovePointer(t) /\ E.rap = RemoveAllPointers(t) /\ E.rr = RemoveReference(t) /\ E.ra = RemoveArray(t)
  /\ E.rv = Without({"v"}, t) /\ E.rc = Without({"c"}, t) /\ E.rcv = Without({"c", "v"}, t)
  /\ E.ap = AddPointer(t) /\ E.nk = Naked(t) /\ E.dc = Decay(t)
  /\ E.vptr = IsPointerOf(t, <<"void">>)
  /\ (Has("mv") => E.mv = MoveOf(t) /\ E.fw = ForwardOf(t))
  /\ (Has("fr") => E.fr = ForwardOf(t))
(* two types and a condition *)
PairRow ==
  /\ E.same = (E.a = E.b) /\ E.of = IsPointerOf(E.a, E.b)
  /\ E.cho = (IF E.cond THEN E.a ELSE E.b) /\ E.en = (IF E.cond THEN E.a ELSE <<"none">>) /\ E.ent = E.en
ClassRow ==
  LET k == Len(K') IN
  /\ K' = K \o <<E.k>>
  /\ E.ctor = TrivCtor(K', k) /\ E.copy = TrivCopy(K', k) /\ E.assign = TrivAssign(K', k) /\ E.dtor = TrivDtor(K', k)
  /\ Decided(K', k) => /\ E.bits = Bitwise(K', k) /\ E.triv = Trivial(K', k)
                       /\ (~Trivial(K', k) \/ Virtual(K', k) => ~E.pod)
                       /\ (Trivial(K', k) /\ Parts(K', k) = {} => E.pod)
  /\ E.bases = [b \in 1..k |-> Derives(K', k, b)]
  /\ E.derived = [b \in 1..k |-> Derives(K', b, k)]
Act == CASE E.e = "Reset" -> K' = <<>>
         [] E.e = "End"   -> UNCHANGED K
         [] E.e = "Type"  -> TypeRow /\ UNCHANGED K
         [] E.e = "Two"   -> PairRow /\ UNCHANGED K
         [] E.e = "Class" -> ClassRow
         [] OTHER -> FALSE
TraceInit == K = <<>> /\ l = 1
TraceNext == Step /\ Act
TraceSpec == TraceInit /\ [][TraceNext]_<<K, l>>
=============================================================================
