----------------------------- MODULE Trace_Anova -----------------------------
(* Recorded parametric tests of several samples (C13). *)
EXTENDS Anova, TraceBase
VARIABLES l, s, o
vars == <<l, s, o>>
PClose(p, x) == FRel(p, x, FDec(2, -4), FDec(1, -5))
Prob(p) == FLe(FZero, p) /\ FLe(p, FOne)

Def(r, S) ==
  LET q == r.o g == GSum(S) k == g.k N == FInt(g.N) sc == FDec(1, 0)
      wk == FDiv(g.SR, N)
      sp == Spread(g) /\ g.N > k
      conc == FLt(FDec(1, -2), g.rA)                             \* kappa of the pooled sample is not zero
      lead == FTop(g, FOne)
  IN << <<"no-exception", r.exc = <<>> >>, <<"refuses", q.bad = 0>> >>
  \o (IF g.N <= k THEN << <<"watson-williams-refused", q.wrefused = 1>> >> ELSE <<
     <<"watson-williams-df", q.wdf1 = k - 1 /\ q.wdf2 = g.N - k /\ q.wk = k /\ q.wN = g.N>>,
     <<"watson-williams", ~sp \/ ~BranchClear(wk) \/ Ratio(q.wF, FTop(g, StephensK(wk)), FBottom(g), StephensK(wk))>>,
     <<"watson-williams-p", ~sp \/ PClose(q.wp, FDistSf(q.wF, k - 1, g.N - k))>>,
     <<"watson-williams-objects", ~sp \/ FRel(q.wFo, q.wF, FDec(1, -5), FDec(1, -5))>>,
     <<"anova-groups", Len(q.aR) = k /\ \A i \in 1..k : FNear(q.aR[i], g.R[i], FMul(N, FDec(2, -7))) /\ (FLt(g.R[i], FDec(1, -2)) \/ ANear(q.amu[i], g.m[i], 200))>>,
     <<"anova-pooled", FNear(q.aRall, g.RA, FMul(N, FDec(2, -7))) /\ (~conc \/ ANear(q.amuall, g.mA, 200))>>,
     <<"anova-kappa", ~conc \/ ~BranchClear(g.rA) \/ FClose(FDiv(FOne, q.ak), InvKappa(g.rA), FMul(FDec(1, -5), FAdd(FOne, InvKappa(g.rA))))>>,
     <<"anova-df", q.adf = <<k - 1, g.N - k, g.N - 1>> /\ q.ldf = k - 1>>,
     <<"anova-squares", \A i \in 1..3 : FNear(q.aSS[i], <<FSub(g.SR, g.RA), Within(g), FSub(N, g.RA)>>[i], FMul(N, FDec(2, -7)))>>,
     <<"anova-mean-squares", FNear(FMul(q.aMS[1], FInt(k - 1)), q.aSS[1], FMul(N, FDec(1, -7))) /\ FNear(FMul(q.aMS[2], FInt(g.N - k)), q.aSS[2], FMul(N, FDec(1, -7)))>>,
     <<"anova-F", ~sp \/ ~conc \/ ~BranchClear(g.rA) \/ Ratio(q.aF, FTop(g, StephensK(g.rA)), FBottom(g), StephensK(g.rA))>>,
     <<"anova-F-given", ~sp \/ Ratio(q.aFg, FMul(FAdd(FOne, FDiv(FDec(375, -3), q.kap)), lead), FBottom(g), FAdd(FOne, FDiv(FDec(375, -3), q.kap)))>>,
     <<"anova-F-plain", ~sp \/ Ratio(q.aF0, lead, FBottom(g), FOne)>>,
     <<"anova-p", ~sp \/ ~conc \/ PClose(q.ap, FDistSf(q.aF, k - 1, g.N - k))>>,
     <<"anova-p-plain", ~sp \/ PClose(q.ap0, FDistSf(q.aF0, k - 1, g.N - k))>>,
     <<"likelihood", ~conc \/ ~FLt(q.ak, FInt(200)) \/ FNear(q.lst, LrtStat(g, q.ak), FMul(FAdd(FAdd(FOne, q.ak), FDiv(FInt(k), q.ak)), FMul(N, FDec(1, -6))))>>,
     <<"likelihood-given", FNear(q.lstg, LrtStat(g, q.kap), FMul(FAdd(FAdd(FOne, q.kap), FDiv(FInt(k), q.kap)), FMul(N, FDec(1, -6))))>>,
     <<"likelihood-p", ~conc \/ PClose(q.lp, ChiSf(q.lst, k - 1))>>,
     <<"equal-kappa-rho", \A i \in 1..k : FNear(q.ekr[i], g.r[i], FDec(2, -7))>>,
     <<"equal-kappa-kappa", \A i \in 1..k : ~BranchClear(g.r[i]) \/ FLt(g.r[i], FDec(1, -2)) \/ ~FLt(g.r[i], FDec(999, -3)) \/ FRel(FDiv(FOne, q.ekk[i]), InvKappa(g.r[i]), FDec(1, -3), FDec(1, -6))>>,
     <<"equal-kappa-regime", ~EkClear(g) \/ q.ekreg = Regime(g.rA)>>,
     <<"equal-kappa", ~EkClear(g) \/ FRel(q.ekst, EqualKappa(g), FDec(1, -4), FMul(N, FDec(2, -5)))>>,
     <<"equal-kappa-p", ~EkClear(g) \/ PClose(q.ekp, ChiSf(q.ekst, k - 1))>>,
     <<"equal-kappa-df", q.ekdf = k - 1>>
     >>)
  \* common median of the pooled sample (its value is the subject of C03)
  \o (LET m == q.med IN
      IF m = ANaN \/ OppM(S, m) \/ ISum([i \in 1..k |-> AtM(S[i], m)]) # q.zeros THEN <<>>
      ELSE LET c == [i \in 1..k |-> BeforeM(S[i], m)] M == ISum(c) IN
           IF M = 0 \/ M = g.N THEN << <<"common-median-refused", q.cmrefused = 1>> >>
           ELSE << <<"common-median", FRel(q.cm, CmStat(c, g.n), FDec(1, -5), FDec(1, -5))>>,
                   <<"common-median-p", PClose(q.cmp, ChiSf(q.cm, k - 1))>>,
                   <<"common-median-decision", FNear(q.cmp, q.level, FDec(1, -6)) \/ (q.cmrej = 1) = FLt(q.cmp, q.level)>>,
                   <<"common-median-value", ASame(q.cmmed, IF q.cmrej = 1 THEN ANaN ELSE m, 1)>> >>)
  \o (IF k # 2 \/ g.n[1] < 2 \/ g.n[2] < 2 THEN <<>> ELSE
      LET a == Disp1(g, 1) b == Disp1(g, 2) IN
      IF ~FLt(FDec(1, -5), a) \/ ~FLt(FDec(1, -5), b) THEN <<>> ELSE <<
      <<"concentration", Ratio(q.cF, a, b, FDec(5, -1))>>,
      <<"concentration-p", PClose(q.cp, ConcP(q.cF, g.n[1] - 1, g.n[2] - 1))>>,
      <<"concentration-df", q.cdf1 = g.n[1] - 1 /\ q.cdf2 = g.n[2] - 1>>,
      <<"concentration-swapped", PClose(q.cps, q.cp) /\ FRel(FMul(q.cFs, q.cF), FOne, FDec(1, -6), FZero)>> >>)
  \* two-way design
  \o (IF r.p = 0 \/ r.p * r.q # k THEN <<>> ELSE
      LET h == HK(g, r.p, r.q) kap == q.hkk tol == FMul(N, FDec(5, -7)) d1 == r.p - 1 d2 == r.q - 1 dr == g.N - r.p * r.q
          big == q.hbig = 1
          F_(f, ss, df, ee, de, b) == Ratio(f, FMul(b, FDiv(ss, FInt(df))), FDiv(ee, FInt(de)), FMul(FAdd(FTwo, FMul(FDec(3, -1), N)), FAdd(FOne, b)))
          ok == FLt(FMul(N, FDec(1, -4)), h.E) ok0 == FLt(FMul(N, FDec(1, -4)), h.E0)
      IN IF ~BranchClear(g.rA) \/ ~conc \/ FNear(g.rA, FDec(6981, -4), FDec(1, -2)) THEN <<>> ELSE
      << <<"two-way-branch", big = FLt(FDec(698, -3), g.rA)>> >>
      \o (IF big THEN
            (IF dr < 1 THEN <<>> ELSE <<
              <<"two-way-squares", Len(q.hSS) = 5 /\ \A i \in 1..5 : FClose(q.hSS[i], <<h.A, h.B, h.I, h.E, h.Tt>>[i], tol)>>,
              <<"two-way-df", q.hdf = <<d1, d2, d1 * d2, dr, g.N - 1>> >>,
              <<"two-way-F", ~ok \/ LET b == FDiv(FOne, FSub(FSub(FOne, FMul(FDec(2, -1), InvKappa(g.rA))), FMul(FDec(1, -1), FSq(InvKappa(g.rA))))) IN
                   F_(q.hF[1], h.A, d1, h.E, dr, b) /\ F_(q.hF[2], h.B, d2, h.E, dr, b) /\ F_(q.hF[3], h.I, d1 * d2, h.E, dr, FOne)>>,
              <<"two-way-p", ~ok \/ (PClose(q.hp[1], FDistSf(q.hF[1], d1, dr)) /\ PClose(q.hp[2], FDistSf(q.hF[2], d2, dr)) /\ PClose(q.hp[3], FDistSf(q.hF[3], d1 * d2, dr)))>>,
              <<"two-way-labels", ~ok \/ \A i \in 1..3 : FRel(q.hpl[i], q.hp[i], FDec(1, -5), FDec(1, -6))>>,
              <<"two-way-factors-exchanged", ~ok \/ \A i \in 1..3 : FRel(q.hpx[<<2, 1, 3>>[i]], q.hp[i], FDec(1, -5), FDec(1, -6))>> >>)
            \o << <<"two-way-additive-squares", Len(q.gSS) = 5 /\ \A i \in {1, 2, 4, 5} : FClose(q.gSS[i], <<h.A, h.B, h.I, h.E0, h.Tt>>[i], tol)>>,
                  <<"two-way-additive-F", ~ok0 \/ (F_(q.gF[1], h.A, d1, h.E0, d1 * d2, FOne) /\ F_(q.gF[2], h.B, d2, h.E0, d1 * d2, FOne))>>,
                  <<"two-way-additive-p", ~ok0 \/ (PClose(q.gp[1], FDistSf(q.gF[1], d1, d1 * d2)) /\ PClose(q.gp[2], FDistSf(q.gF[2], d2, d1 * d2)))>> >>
          ELSE LET fct == HKFactor(KappaHat(g.rA)) t2 == FMul(fct, FMul(tol, FInt(4))) IN <<
              <<"two-way-chi", \A i \in 1..3 : FClose(q.hF[i], FMul(fct, <<h.A, h.B, h.I>>[i]), t2)>>,
              <<"two-way-chi-df", q.hdf = <<2 * d1, 2 * d2, d1 * d2>> >>,
              <<"two-way-chi-p", \A i \in 1..3 : PClose(q.hp[i], ChiSf(q.hF[i], <<2 * d1, 2 * d2, d1 * d2>>[i]))>>,
              <<"two-way-chi-labels", \A i \in 1..3 : FRel(q.hpl[i], q.hp[i], FDec(1, -5), FDec(1, -6))>>,
              <<"two-way-chi-factors-exchanged", \A i \in 1..3 : FRel(q.hpx[<<2, 1, 3>>[i]], q.hp[i], FDec(1, -5), FDec(1, -6))>> >>))

Law(r, p, S) ==
  IF r.op.t \notin GKeeps THEN <<>>
  ELSE LET q == r.o g == GSum(S) sp == Spread(g) /\ g.N > g.k conc == FLt(FDec(1, -2), g.rA)
           Same(a, b) == FRel(a, b, FDec(1, -4), FDec(1, -5)) IN
  (IF ~sp THEN <<>> ELSE <<
     <<"law-watson-williams", Same(q.wF, p.wF) /\ Same(q.wp, p.wp)>>,
     <<"law-anova", ~conc \/ (Same(q.aF, p.aF) /\ Same(q.ap, p.ap))>>,
     <<"law-likelihood", ~conc \/ ~FLt(q.ak, FInt(200)) \/ FRel(q.lst, p.lst, FDec(1, -3), FDec(1, -3))>>,
     <<"law-equal-kappa", ~EkClear(g) \/ FRel(q.ekst, p.ekst, FDec(1, -3), FDec(1, -4))>>,
     <<"law-concentration", g.k # 2 \/ FIsNaN(p.cp) \/ FRel(q.cp, p.cp, FDec(1, -3), FDec(1, -5))>>,
     <<"law-two-way", r.op.t = "SwapGroups" \/ r.p = 0 \/ r.p * r.q # g.k \/ ~conc \/ FNear(g.rA, FDec(6981, -4), FDec(1, -2)) \/ FIsNaN(p.hp[1]) \/ ~FLt(FMul(FInt(g.N), FDec(1, -4)), HK(g, r.p, r.q).E)
                       \/ \A i \in 1..3 : FRel(q.hp[i], p.hp[i], FDec(1, -3), FDec(1, -5))>> >>)

Init == l = 1 /\ s = <<>> /\ o = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E r \in {Trace[l]} : \E S \in {IF r.op.t = "New" THEN r.s ELSE GApply(r.op, s)} :
           /\ s' = S
           /\ o' = r.o
           /\ \E cl \in {<< <<"data", S = r.s>> >> \o Def(r, S) \o (IF r.op.t = "New" THEN <<>> ELSE Law(r, o, S))} : Report(l, cl)
Spec == Init /\ [][Next]_vars
Accepted == AllConsumed
=============================================================================
