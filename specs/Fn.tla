--------------------------------- MODULE Fn ----------------------------------
(* Callable wrappers (templates/function.h): contents <<>> (unbound) or <<kind, base, calls>>, the functor the
   wrapper owns. Kinds 1, 2, 8: stateless; 3, 4, 5, 7: functors that count their calls; 6: a method of the
   shared object number base, whose state ob[base] belongs to nobody. A moved-from wrapper is unbound. *)
EXTENDS Slots

VARIABLE ob

FnInit == SlotsInit /\ ob = <<0, 0, 0>>
Stateful(k) == k \in {3, 4, 5, 7}
Start(k, b) == CASE k = 1 -> <<1, 7, 0>> [] k = 2 -> <<2, 9, 0>> [] k = 6 -> <<6, b % 3, 0>> [] OTHER -> <<k, b, 0>>
Bind(o, k, b)   == IsNone(o) /\ Put(o, Start(k, b)) /\ UNCHANGED ob
Rebind(o, k, b) == ~IsNone(o) /\ Put(o, Start(k, b)) /\ UNCHANGED ob
Set(o, p)       == ~IsNone(o) /\ IsLive(p) /\ Put(o, Val(p)) /\ UNCHANGED ob
Bound(o)        == IsLive(o) /\ Val(o) # <<>>
Result(o, x) == LET f == Val(o) IN
                CASE f[1] = 6 -> (ob[f[2] + 1] + 1) * 1000 + x
                  [] Stateful(f[1]) -> f[2] + x + 100 * f[3]
                  [] OTHER -> f[2] + x
Call(o) == /\ Bound(o)
           /\ LET f == Val(o) IN
              /\ st' = IF Stateful(f[1]) THEN [st EXCEPT ![o].v[3] = @ + 1] ELSE st
              /\ ob' = IF f[1] = 6 THEN [ob EXCEPT ![f[2] + 1] = @ + 1] ELSE ob
SigResult(w, x) == CASE w = 0 -> x + 5
                     [] w = 1 -> (x + 1) * 1000 + x + 1
                     [] w = 4 -> x * 10 + 3
                     [] w = 6 -> LET n == x % 10 IN (n * (n + 1)) \div 2
                     [] w = 7 -> x + 2
                     [] w = 8 -> x + 3 * 1 + 5 * 2 + 7 * 3 + 11 * 4 + 13 * 5 + 17 * 6 + 19 * 7
                     [] w = 9 -> 2 * x + 3
                     [] w = 11 -> 2 * x
                     [] OTHER -> x
(* Forwarding: a parameter declared T, T&, const T&, T&&, const T&& (0..4) reaches the target as an
   rvalue, lvalue, const lvalue, rvalue, const rvalue; references designate the caller's object, and only a
   named object passed by value is copied, once. The int by value behind it is a temporary too. *)
Category(par) == CASE par = 0 -> 3 [] par = 1 -> 1 [] par = 2 -> 2 [] par = 3 -> 3 [] par = 4 -> 4
Forwarded(par, rv, x, cat, v, copies, same) ==
    /\ cat = Category(par)
    /\ v = x + 1000 * 1 + 10000 * 2
    /\ same = (par # 0)
    /\ copies = IF par = 0 /\ ~rv THEN 1 ELSE 0
TypeOK == SlotsTypeOK /\ \A o \in Slot : Len(st[o].v) \in {0, 3}
=============================================================================
