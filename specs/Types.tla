-------------------------------- MODULE Types --------------------------------
(* Types of the language as terms, and what the queries and transformations of templates/types.h,          *)
(* templates/base.h and the casts of templates/utility.h mean on them.                                      *)
(* A term is a sequence of words, the outermost constructor first: "p" pointer to, "l" and "r" references,  *)
(* "c" and "v" qualifiers, "a" array of unknown bound, "a2" and "a3" arrays, "f" function of nothing,       *)
(* "fi" of an int, "fe" of an int and an ellipsis, "fn" of nothing, not throwing; last the name of a basic  *)
(* type. Terms are canonical: qualifiers come in the order c, v, never twice, those of an array are at its  *)
(* elements, references and functions have none.                                                            *)
EXTENDS Integers, Sequences

Refs    == {"l", "r"}
Arrays  == {"a", "a2", "a3"}
Funs    == {"f", "fi", "fe", "fn"}
Quals   == {"c", "v"}
Integer == {"bool", "char", "schar", "uchar", "wchar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong"}
Top(t)  == Head(t)

RECURSIVE Q(_)          \* the qualifiers of a type; those of an array are those of its elements
Q(t) == CASE Top(t) \in Quals  -> {Top(t)} \cup Q(Tail(t))
          [] Top(t) \in Arrays -> Q(Tail(t))
          [] OTHER -> {}
RECURSIVE Bare(_)       \* the type without them
Bare(t) == CASE Top(t) \in Quals  -> Bare(Tail(t))
             [] Top(t) \in Arrays -> <<Top(t)>> \o Bare(Tail(t))
             [] OTHER -> t
RECURSIVE Qualified(_, _)
Qualified(qs, t) == CASE Top(t) \in Refs \cup Funs -> t
                      [] Top(t) \in Arrays -> <<Top(t)>> \o Qualified(qs, Tail(t))
                      [] OTHER -> LET a == qs \cup Q(t) IN (IF "c" \in a THEN <<"c">> ELSE <<>>) \o (IF "v" \in a THEN <<"v">> ELSE <<>>) \o Bare(t)
Without(qs, t) == IF Top(t) \in Refs \cup Funs THEN t ELSE Qualified(Q(t) \ qs, Bare(t))

\* what the language lets a type be made into
IsRef(t)    == Top(t) \in Refs
IsVoidQ(t)  == Bare(t) = <<"void">>
CanPtr(t)   == ~IsRef(t)
CanRef(t)   == ~IsVoidQ(t)
CanArray(t) == ~IsRef(t) /\ ~IsVoidQ(t) /\ Top(t) \notin Funs \cup {"a"}
CanFun(t)   == Top(t) \notin Arrays \cup Funs
Reference(k, t) == IF IsRef(t) THEN (IF k = "l" THEN <<"l">> \o Tail(t) ELSE t) ELSE <<k>> \o t
Can(k, t) == CASE k \in Quals -> TRUE [] k = "p" -> CanPtr(t) [] k \in Refs -> CanRef(t) [] k \in Arrays -> CanArray(t) [] OTHER -> CanFun(t)
Made(k, t) == CASE k \in Quals -> Qualified({k}, t) [] k \in Refs -> Reference(k, t) [] OTHER -> <<k>> \o t

\* queries
IsPointer(t)  == Top(Bare(t)) = "p"
IsArray(t)    == Top(t) \in Arrays
IsFunction(t) == Top(t) \in Funs
IsVolatile(t) == "v" \in Q(t)
IsVoid(t)     == t = <<"void">>
IsIntegral(t) == Len(t) = 1 /\ t[1] \in Integer
IsPointerOf(t, u) == IsPointer(t) /\ LET x == Tail(Bare(t)) IN Bare(x) = Bare(u) /\ Q(u) \subseteq Q(x)

\* transformations
RemovePointer(t) == IF IsPointer(t) THEN Tail(Bare(t)) ELSE t
RECURSIVE RemoveAllPointers(_)
RemoveAllPointers(t) == IF IsPointer(t) THEN RemoveAllPointers(Tail(Bare(t))) ELSE t
RemoveReference(t) == IF IsRef(t) THEN Tail(t) ELSE t
RemoveArray(t) == IF IsArray(t) THEN Tail(t) ELSE t
AddPointer(t)  == <<"p">> \o RemoveReference(t)
Naked(t)       == Without({"c"}, RemoveReference(t))
Decay(t)       == LET u == RemoveReference(t) IN
                  IF IsArray(u) THEN <<"p">> \o Tail(u) ELSE IF IsFunction(u) THEN <<"p">> \o u ELSE Bare(u)

\* casts: what an expression of type u is given back as
FromFun(t)     == IsFunction(RemoveReference(t))            \* what denotes a function is always an lvalue
MoveOf(t)      == <<IF FromFun(t) THEN "l" ELSE "r">> \o RemoveReference(t)             \* move(x), x of type t
ForwardOf(t)   == Reference(IF FromFun(t) THEN "l" ELSE "r", t)                         \* forward<t>(x)

---------------------------------------------------------------------------
(* Classes: earlier classes as base and as member (0: none), a plain member, a virtual function, and which *)
(* special members are written by the user.                                                                 *)
\* K is the sequence of classes; own[s]: s is written by the user
RECURSIVE TrivCtor(_, _), TrivCopy(_, _), TrivAssign(_, _), TrivDtor(_, _)
Parts(K, k) == {K[k].base, K[k].member} \ {0}
TrivCtor(K, k)   == ~K[k].ctor /\ ~K[k].virt /\ \A p \in Parts(K, k) : TrivCtor(K, p)
TrivCopy(K, k)   == ~K[k].copy /\ ~K[k].virt /\ \A p \in Parts(K, k) : TrivCopy(K, p)
TrivAssign(K, k) == ~K[k].assign /\ ~K[k].virt /\ \A p \in Parts(K, k) : TrivAssign(K, p)
TrivDtor(K, k)   == ~K[k].dtor /\ \A p \in Parts(K, k) : TrivDtor(K, p)
Bitwise(K, k)    == TrivCopy(K, k) /\ TrivAssign(K, k) /\ TrivDtor(K, k) /\ ~K[k].move
Trivial(K, k)    == Bitwise(K, k) /\ TrivCtor(K, k)
\* whether a class is copied bit by bit is not decided here when one of its parts has a move constructor of its own that it does not use
RECURSIVE Moves(_, _)
Moves(K, k)      == K[k].move \/ \E p \in Parts(K, k) : Moves(K, p)
Decided(K, k)    == \A p \in Parts(K, k) : ~Moves(K, p)
RECURSIVE Virtual(_, _)
Virtual(K, k)    == K[k].virt \/ \E p \in {K[k].base} \ {0} : Virtual(K, p)
RECURSIVE Derives(_, _, _)
Derives(K, k, b) == k = b \/ (K[k].base # 0 /\ Derives(K, K[k].base, b))
=============================================================================
