----------------------------- MODULE Trace_Ranks -----------------------------
(* Recorded rank tests (C12). *)
EXTENDS Ranks, TraceBase
VARIABLES l, s, ang, o
vars == <<l, s, ang, o>>
PClose(p, x) == FRel(p, x, FDec(1, -4), FDec(5, -6))
SClose(p, x) == FRel(p, x, FDec(1, -5), FDec(3, -6))
\* equal directions recorded with different turns are equal only to rounding
CleanTies(E) == LET P == FlattenSeq(E) IN \A i, j \in DOMAIN P : P[i] = P[j] \/ ADist(AWrap(P[i]), AWrap(P[j])) > 2

Def(r, S, v) ==
  LET q == r.o k == Len(S) E == TLCEval([i \in 1..k |-> Expanded(S[i])]) all == TLCEval(FlattenSeq(E))
      ties == ~Untied(all)
      clean == ~ties \/ CleanTies(E)
      two == k = 2
      u == TLCEval(IF two THEN Watson2(E[1], E[2]) ELSE FZero)
      n1 == Len(E[1]) n2 == Len(E[2])
      vv == r.angs
      D == TLCEval(IF two THEN Dists(E, <<v, v>>) ELSE <<>>)
      DD == TLCEval(IF two THEN Dists(E, vv) ELSE <<>>)
  IN << <<"no-exception", r.exc = <<>> >>,
        <<"wheeler-df", q.wdf = 2 * (k - 1)>>,
        <<"wheeler", ties \/ SClose(q.ww, WheelerW(E))>>,
        <<"wheeler-p", PClose(q.wp, ChiSf(q.ww, 2 * (k - 1)))>>,
        <<"wheeler-objects", ties \/ SClose(q.wwo, q.ww)>>,
        <<"refuses", q.bad = 0>> >>
  \o (IF ~two THEN <<>> ELSE <<
        <<"watson", ~clean \/ SClose(q.u2, u)>>,
        <<"watson-p", PClose(q.up, Watson2P(q.u2))>>,
        <<"watson-objects", ~clean \/ SClose(q.u2o, q.u2)>>,
        <<"wallraff", ~ClearDists(D) \/ FNear(q.wu, FDiv(FInt(WallraffU2(D)), FTwo), FDec(1, -6))>>,
        <<"wallraff-p", PClose(q.wup, WallraffP(FRound(FMul(FTwo, q.wu)), n1, n2))>>,
        <<"wallraff-two-angles", ~ClearDists(DD) \/ FNear(q.wu2, FDiv(FInt(WallraffU2(DD)), FTwo), FDec(1, -6))>>,
        <<"wallraff-objects", ~ClearDists(D) \/ FNear(q.wuo, q.wu, FDec(1, -6))>>,
        <<"randomisation", SClose(q.art, ArtStat(E[1], E[2]))>>,
        <<"randomisation-objects", SClose(q.arto, q.art)>>,
        <<"probabilities", \A p \in {q.up, q.wup, q.wp, q.artp} : FLe(FZero, p) /\ FLe(p, FOne)>> >>)

Law(r, p, S) ==
  IF r.op.t \notin GKeeps THEN <<>>
  ELSE LET q == r.o k == Len(S) E == TLCEval([i \in 1..k |-> Expanded(S[i])]) ties == ~Untied(FlattenSeq(E)) clean == ~ties \/ CleanTies(E) IN
  << <<"law-wheeler", ties \/ SClose(q.ww, p.ww)>> >>
  \o (IF k # 2 THEN <<>> ELSE <<
     <<"law-watson", (r.op.t = "ReflectAll" /\ ties) \/ ~clean \/ ~p.clean \/ SClose(q.u2, p.u2)>>,
     <<"law-wallraff", r.op.t = "SwapGroups" \/ FNear(q.wu, p.wu, FDec(1, -6)) \/ ~ClearDists(Dists(E, <<r.ang, r.ang>>))>>,
     <<"law-wallraff-swapped", r.op.t # "SwapGroups" \/ FNear(q.wu, p.wu, FDec(1, -6))>>,
     <<"law-randomisation", SClose(q.art, p.art)>> >>)

Init == l = 1 /\ s = <<>> /\ ang = 0 /\ o = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E r \in {Trace[l]} : \E S \in {IF r.op.t = "New" THEN r.s ELSE GApply(r.op, s)} :
           \E v \in {IF r.op.t = "New" THEN r.ang ELSE GAngle(r.op, ang)} :
           /\ s' = S
           /\ ang' = v
           /\ o' = [ww |-> r.o.ww, u2 |-> r.o.u2, wu |-> r.o.wu, art |-> r.o.art, clean |-> CleanTies([i \in DOMAIN S |-> Expanded(S[i])])]
           /\ \E cl \in {<< <<"data", S = r.s /\ v = r.ang>> >> \o Def(r, S, v) \o (IF r.op.t = "New" THEN <<>> ELSE Law(r, o, S))} : Report(l, cl)
Spec == Init /\ [][Next]_vars
Accepted == AllConsumed
=============================================================================
