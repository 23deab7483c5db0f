----------------------------- MODULE Trace_Homog -----------------------------
(* Recorded homogeneity tests of Rao (C14). *)
EXTENDS Sequence, TraceBase
VARIABLES l, s, o
vars == <<l, s, o>>
PClose(p, x) == FRel(p, x, FDec(2, -4), FDec(1, -5))
Groups_(S) == TLCEval([k \in DOMAIN S |-> RaoGroup(Expanded(S[k]))])
Big(S) == \A k \in DOMAIN S : Size(S[k]) >= 2
Xs(G, F(_)) == [k \in DOMAIN G |-> F(G[k])]
HClose(h, x) == FRel(h, x, FDec(5, -4), FDec(2, -4))
Def(r, S) ==
  LET q == r.o k == Len(S) IN
  << <<"no-exception", r.exc = <<>> >>, <<"refuses", q.bad = 0>> >>
  \o (IF ~Big(S) THEN <<>> ELSE LET G == Groups_(S) IN
  (IF ~PolarClear(G) THEN <<>> ELSE <<
     <<"polar", HClose(q.Hp, Hom([i \in DOMAIN G |-> G[i].t], [i \in DOMAIN G |-> G[i].vt]))>>,
     <<"polar-p", PClose(q.pp, ChiSf(q.Hp, k - 1))>>,
     <<"polar-decision", FNear(q.pp, q.level, FDec(1, -6)) \/ (q.rp = 1) = FLt(q.pp, q.level)>> >>)
  \o (IF ~DispClear(G) THEN <<>> ELSE <<
     <<"dispersion", HClose(q.Hd, Hom([i \in DOMAIN G |-> G[i].U], [i \in DOMAIN G |-> G[i].vU]))>>,
     <<"dispersion-p", PClose(q.pd, ChiSf(q.Hd, k - 1))>>,
     <<"dispersion-decision", FNear(q.pd, q.level, FDec(1, -6)) \/ (q.rd = 1) = FLt(q.pd, q.level)>> >>))
Law(r, p, S) ==
  IF r.op.t \notin GKeeps \/ ~Big(S) THEN <<>>
  ELSE LET q == r.o G == Groups_(S) IN
  << <<"law-polar", ~PolarClear(G) \/ (r.op.t = "RotateAll" /\ r.op.x % HalfT # 0) \/ FRel(q.Hp, p.Hp, FDec(1, -4), FDec(1, -5))>>,
     <<"law-dispersion", ~DispClear(G) \/ FRel(q.Hd, p.Hd, FDec(1, -4), FDec(1, -5))>> >>
Init == l = 1 /\ s = <<>> /\ o = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E r \in {Trace[l]} : \E S \in {IF r.op.t = "New" THEN r.s ELSE GApply(r.op, s)} :
           /\ s' = S
           /\ o' = r.o
           /\ \E cl \in {<< <<"data", S = r.s>> >> \o Def(r, S) \o (IF r.op.t = "New" THEN <<>> ELSE Law(r, o, S))} : Report(l, cl)
Spec == Init /\ [][Next]_vars
Accepted == AllConsumed
=============================================================================
