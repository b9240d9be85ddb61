------------------------------ MODULE StrTrace -------------------------------
EXTENDS Str, SlotsTrace

S == Val(E.o)
Act ==
    CASE IsSlotEvent         -> SlotAct
      [] E.e = "From"        -> From(E.o, E.xs)
      [] E.e = "Fill"        -> From(E.o, [j \in 1..E.n |-> E.c])
      [] E.e = "Become"      -> Become(E.o, E.xs)
      [] E.e = "Write"       -> Write(E.o, E.i, E.c)
      [] E.e = "Append"      -> Cat(E.o, E.xs)
      [] E.e = "AppendOf"    -> Cat(E.o, Val(E.p))
      [] E.e = "AppendTail"  -> Cat(E.o, Tl(S, E.i))
      [] E.e = "Plus"        -> Plus(E.o, E.p, E.q)
      [] E.e = "PlusC"       -> PlusC(E.o, E.p, E.xs)
      [] E.e = "Substr"      -> Substr(E.o, E.p, E.n, E.pos)
      [] E.e = "Lower"       -> Lower(E.o, E.p)
      [] E.e = "Upper"       -> Upper(E.o, E.p)
      [] E.e = "Format"      -> From(E.o, E.pre \o Val(E.p) \o E.post)
      [] E.e = "Splice"      -> Splice(E.o, E.pos, E.n, E.xs)
      [] E.e = "SpliceOf"    -> Splice(E.o, E.pos, E.n, Val(E.p))
      [] E.e = "SpliceTail"  -> Splice(E.o, E.pos, E.n, Tl(S, E.i))
      [] E.e = "Find"        -> Look(E.o) /\ E.r = First(S, E.xs, E.from)
      [] E.e = "FindOf"      -> Look2(E.o, E.p) /\ E.r = First(S, Val(E.p), E.from)
      [] E.e = "FindAll"     -> Look(E.o) /\ IsAscSeq(E.r, Occ(S, E.xs))
      [] E.e = "Replace"     -> Replace(E.o, E.xs, E.ys)
      [] E.e = "ReplaceOf"   -> IsLive(E.p) /\ IsLive(E.q) /\ Replace(E.o, Val(E.p), Val(E.q))
      [] E.e = "Compare"     -> LET d == E.d P == Val(E.p) IN
                                /\ Look2(E.o, E.p)
                                /\ IsDiff(d, S, P) /\ E.dc = d /\ IsIDiff(E.id, S, P) /\ E.idc = E.id
                                /\ (d < 0 <=> E.rd > 0) /\ (d > 0 <=> E.rd < 0) /\ (E.id < 0 <=> E.ird > 0) /\ (E.id > 0 <=> E.ird < 0)
                                /\ E.eq = (d = 0) /\ E.ne = (d # 0) /\ E.lt = (d < 0) /\ E.gt = (d > 0) /\ E.le = (d <= 0) /\ E.ge = (d >= 0)
                                /\ E.eqc = (d = 0) /\ E.nec = (d # 0) /\ E.ltc = (d < 0) /\ E.gtc = (d > 0) /\ E.lec = (d <= 0) /\ E.gec = (d >= 0)
      [] E.e = "CompareN"    -> /\ Look2(E.o, E.p)
                                /\ IsDiff(E.d, Sub(S, E.n, E.from), Sub(Val(E.p), E.n, E.from))
                                /\ IsIDiff(E.id, Sub(S, E.n, E.from), Sub(Val(E.p), E.n, E.from))
      [] E.e = "Query"       -> /\ Query(E.o)
                                /\ (IsLive(E.o) =>
                                      /\ E.n = Len(S) /\ E.n2 = Len(S) /\ E.n3 = Len(S) /\ E.n4 = Len(AsC(S)) /\ E.n5 = Len(S) + 1
                                      /\ E.f = S /\ E.d = AsC(S) /\ E.b = S)
      [] OTHER               -> FALSE

TraceInit == SlotsInit /\ l = 1
TraceNext == Step /\ IF E.e = "Reset" THEN st' = NoSlots ELSE Act /\ Obs
TraceSpec == TraceInit /\ [][TraceNext]_<<st, l>>
=============================================================================
