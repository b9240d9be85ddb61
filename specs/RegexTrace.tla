------------------------------ MODULE RegexTrace -----------------------------
(* Compiled patterns and the verdicts they gave. A well-formed pattern accepts a string exactly when it    *)
(* denotes it; what a malformed one accepts is its own business, but it is always the same.                *)
EXTENDS Regex, TraceBase

CONSTANT Slots
VARIABLES rx,           \* the compiled patterns: text and what it was read as
          said          \* verdicts of malformed patterns: <<pattern, string>> -> verdict
None == [live |-> FALSE, t |-> <<>>, p |-> No]
Said(t, s, v) ==        \* the verdict v is the right one, or the same as ever
    IF <<t, s>> \in DOMAIN said THEN v = said[<<t, s>>] /\ UNCHANGED said
    ELSE said' = [x \in DOMAIN said \cup {<<t, s>>} |-> IF x = <<t, s>> THEN v ELSE said[x]]
Verdict(t, p, s, v) == IF p.ok THEN v = Accepts(p.r, s) /\ UNCHANGED said ELSE Said(t, s, v)

Compile(o, t) == ~rx[o].live /\ rx' = [rx EXCEPT ![o] = [live |-> TRUE, t |-> t, p |-> Parse(t)]] /\ UNCHANGED said
Destroy(o)    == rx[o].live /\ rx' = [rx EXCEPT ![o] = None] /\ UNCHANGED said
Match(o, s, v) == rx[o].live /\ Verdict(rx[o].t, rx[o].p, s, v) /\ UNCHANGED rx

TraceInit == rx = [o \in 1..Slots |-> None] /\ said = <<>> /\ l = 1
Act == CASE E.e = "Reset"   -> rx' = [o \in 1..Slots |-> None] /\ said' = <<>>
         [] E.e = "Compile" -> Compile(E.o, E.t)
         [] E.e = "Build"   -> ~rx[E.o].live /\ rx' = [rx EXCEPT ![E.o] = [live |-> TRUE, t |-> <<>>, p |-> Yes(E.r, 0)]] /\ UNCHANGED said
         [] E.e = "Destroy" -> Destroy(E.o)
         [] E.e = "Match"   -> Match(E.o, E.s, E.v) /\ E.kept /\ (Has("w") => E.w = E.v)
         [] E.e = "Exec"    -> rx[E.o].live /\ E.vs = [k \in DOMAIN E.vs |-> E.vs[1]] /\ Verdict(rx[E.o].t, rx[E.o].p, E.s, E.vs[1]) /\ UNCHANGED rx
         [] E.e = "Prefix"  -> rx[E.o].live /\ (rx[E.o].p.ok => E.v = Prefixes(rx[E.o].p.r, E.s)) /\ UNCHANGED <<rx, said>>
         [] E.e = "Show"    -> rx[E.o].live /\ E.same /\ UNCHANGED <<rx, said>>
         [] E.e = "Once"    -> Verdict(E.t, Parse(E.t), E.s, E.v) /\ UNCHANGED rx
         [] E.e = "End"     -> UNCHANGED <<rx, said>> /\ (Has("held") => E.held = 0 /\ E.err = 0)    \* everything was given back
         [] OTHER           -> FALSE
TraceNext == Step /\ Act
TraceSpec == TraceInit /\ [][TraceNext]_<<rx, said, l>>
=============================================================================
