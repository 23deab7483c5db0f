----------------------------- MODULE Trace_ClReg -----------------------------
(* Recorded regressions of a direction on numbers (C17). *)
EXTENDS ClReg, TraceBase
VARIABLES l, d, o
vars == <<l, d, o>>
\* design: x/1000, and the first direction in turns when there are two columns
XCols(x, p) == LET c1 == TLCEval([i \in DOMAIN x.x |-> FDec(x.x[i], -3)])
                   c2 == TLCEval([i \in DOMAIN x.a |-> FDiv(FInt(AWrap(x.a[i])), FInt(T))]) IN IF p = 1 THEN <<c1>> ELSE <<c1, c2>>
SqV(v) == [i \in DOMAIN v |-> FSq(v[i])]
FSumS(v) == FoldLeft(LAMBDA s, u : FAdd(s, u), FZero, v)
MaxF(v) == FoldLeft(LAMBDA s, u : FMax(s, u), FZero, v)
MinF(v) == FoldLeft(LAMBDA s, u : FMin(s, u), v[1], v)
EqRel(a, b, t) == FRel(a, b, t, FDec(1, -9))
VRel(u, v, t) == Len(u) = Len(v) /\ \A i \in DOMAIN u : EqRel(u[i], v[i], t)
\* far above the ridge term
Big(M) == \A j \in DOMAIN M : FLt(InvDiag(M, j), FInt(1000))
Small(s, scale) == FLe(FAbs(s), FAdd(FMul(FDec(5, -4), scale), FDec(1, -6)))
\* responses: the second direction, or a mean direction moving gently with x
GentleB(x) == [i \in DOMAIN x.b |-> 40000000 + x.x[i] * 20000 + (x.b[i] % 20000001) - 10000000]
SpreadX(x) == LET xs == [i \in DOMAIN x.x |-> FDec(x.x[i], -3)] n == FInt(Len(xs)) m == FDiv(FSumS(xs), n) q == FSumS(SqV(xs)) IN
  FLt(FOne, q) /\ FLt(q, FMul(FDec(5, -1), n)) /\ FLt(FMul(n, FSq(m)), FMul(FDec(4, -1), q))
Def(r, x0) ==
  LET q == r.o n == Len(x0.b) x == IF r.gentle = 1 THEN [x0 EXCEPT !.b = GentleB(x0)] ELSE x0 IN
  << <<"no-exception", r.exc = <<>> >>, <<"refuses", q.bad = 0>>, <<"summary", q.summ = 1>>,
     <<"mean-model-converges", r.gentle = 0 \/ r.mt # "mean" \/ r.p # 1 \/ n < 10 \/ ~SpreadX(x) \/ q.degen = 1 \/ q.conv = 1>> >>
  \o (IF q.conv = 0 THEN <<>> ELSE
  LET X == XCols(x, r.p) p == r.p
      hasB == r.mt # "kappa" hasG == r.mt # "mean"
      beta == q.beta dv == DevsOf(x.b, X, beta)
      kx == KapOf(X, q.alpha, q.gamma)
      kap == IF hasG THEN q.kap ELSE [i \in 1..n |-> q.kap[1]]
      mv == MuVec(kap, dv) res == ResOf(dv, q.mu)
      rbar == FDiv(VLen(MuVec(OnesF(n), dv)), FInt(n))
      ll == LogLik(kap, res)
      kmax == MaxF(kap) kmin == MinF(kap)
      np == FInt(IF r.mt = "mean" THEN p ELSE IF r.mt = "kappa" THEN 1 + p ELSE 1 + 2 * p)
      aic == FAdd(FMul(FInt(-2), q.ll), FMul(FTwo, np))
      bic == FAdd(FMul(FInt(-2), q.ll), FMul(np, FLn(FInt(n))))
      X1 == <<OnesF(n)>> \o X
      a1 == TLCEval([i \in 1..n |-> A1K(kap[i])])
      ap == TLCEval([i \in 1..n |-> A1Prime(kap[i])])
      G == TLCEval([j \in 1..p |-> GCol(X, beta, j)])
      wb == [i \in 1..n |-> FMul(kap[i], a1[i])]
      wg == [i \in 1..n |-> FMul(FSq(kap[i]), ap[i])]
      Mb == Gram(G, wb) Mg == Gram(X1, wg)
      sewb == FSumS(wb)
      calm == FLt(kmax, FInt(30)) /\ FLt(FDec(2, -2), kmin)
  IN IF FLe(FInt(600), kmax) THEN <<>> ELSE
     << <<"shapes", Len(beta) = p /\ Len(q.gamma) = p /\ Len(q.kap) = (IF hasG THEN n ELSE 1)>>,
        <<"unused-coefficients", (hasB \/ \A j \in 1..p : beta[j] = FZero) /\ (hasG \/ \A j \in 1..p : q.gamma[j] = FZero)>>,
        <<"mean-direction", FLt(VLen(mv), FMul(FDec(1, -4), FSumS(kap))) \/ ANear(q.mu, AAtan2(mv[2], mv[1]), 5 + FRound(FDiv(FMul(FInt(2000), FSumS(kap)), FMul(FInt(10), VLen(mv)))))>>,
        <<"concentration", IF hasG THEN VRel(q.kap, kx, FMul(FDec(1, -6), FAdd(FOne, FAdd(FAbs(q.alpha), FSumS([j \in DOMAIN X |-> FMul(FAbs(q.gamma[j]), MaxF([i \in 1..n |-> FAbs(X[j][i])]))]))))) ELSE FLt(FDec(9999, -4), rbar) \/ EqRel(q.kap[1], KappaHat(rbar), FDec(2, -3))>>,
        <<"log-likelihood", FClose(q.ll, ll, FMul(FDec(1, -6), FAdd(FOne, FSumS(kap))))>>,
        <<"stationary-slope", ~hasB \/ \A j \in 1..p : Small(ScoreB(X, beta, kap, res, j), FAdd(Abs3(G[j], kap), FMul(FDec(1, -4), FAbs(beta[j]))))>>,
        <<"stationary-concentration", ~hasG \/ \A j \in 1..(p + 1) : Small(ScoreG(X1[j], kap, res), Abs3(X1[j], kap))>>,
        <<"aic", FClose(q.aic, aic, FMul(FDec(1, -6), FAdd(FOne, FAbs(q.ll))))>>,
        <<"bic", FClose(q.bic, bic, FMul(FDec(1, -6), FAdd(FOne, FAbs(q.ll))))>>,
        <<"predict", Len(q.pred) = n /\ \A i \in 1..n : ANear(q.pred[i], AWrap(q.mu + LinkA(Lin(X, beta, i))), 20 + FRound(FMul(FInt(20), FSumS([j \in 1..p |-> FAbs(FMul(beta[j], X[j][i]))]))))>>,
        <<"formula", r.fast = 0 \/ q.form = 1>>,
        <<"stays-at-solution", r.fast = 0 \/ FClose(q.stay, q.ll, FMul(FDec(1, -5), FAdd(FOne, FAbs(q.ll))))>>,
        <<"se-slope", ~hasB \/ ~calm \/ ~MClear(Mb) \/ ~Big(Mb) \/ VRel(SqV(q.seb), [j \in 1..p |-> InvDiag(Mb, j)], FDec(2, -4))>>,
        <<"se-concentration", ~hasG \/ ~calm \/ ~MClear(Mg) \/ ~Big(Mg) \/ VRel(SqV(<<q.sea>> \o q.seg), [j \in 1..(p + 1) |-> InvDiag(Mg, j)], FDec(1, -3))>>,
        <<"se-direction", ~calm \/ LET den == IF hasG THEN FSub(sewb, FDec(5, -1)) ELSE FMul(FSub(FInt(n), FInt(p)), wb[1]) IN
             FLt(den, FDec(1, -1)) \/ EqRel(FSq(q.sem), FDiv(FOne, den), FDec(1, -4))>>,
        <<"se-kappa", ~calm \/ VRel(SqV(q.sek), [i \in DOMAIN q.kap |-> FDiv(FOne, FMul(FInt(n), ap[i]))], FDec(2, -3))>> >>)

Law(r, pr, x) ==
  LET q == r.o p == pr.o IN
  IF q.conv = 0 \/ p.conv = 0 \/ (r.gentle = 1 /\ r.op.t \notin {"SwapP", "RevP"}) \/ r.op.t \notin {"RotB", "RefB", "TurnB", "SwapP", "RevP", "ScaleX"} \/ r.fast * pr.fast = 0
     \/ ("seb" \in DOMAIN q /\ \E j \in DOMAIN q.seb : FLt(FInt(20), FMax(q.seb[j], p.seb[j])))
     \/ ("seg" \in DOMAIN q /\ \E j \in DOMAIN q.seg : FLt(FInt(20), FMax(q.seg[j], p.seg[j]))) THEN <<>>
  \* another local maximum may be reached, unless the data are gentle
  ELSE IF r.gentle = 0 /\ ~FClose(q.ll, p.ll, FMul(FDec(1, -5), FAdd(FOne, FAbs(p.ll)))) THEN <<>>
  ELSE LET sg == IF r.op.t = "RefB" THEN FInt(-1) ELSE FOne
           mu == IF r.op.t = "RotB" THEN AWrap(p.mu + r.op.x) ELSE IF r.op.t = "RefB" THEN AWrap(-p.mu) ELSE p.mu
           sc(j) == IF r.op.t = "ScaleX" /\ j = 1 THEN FInt(r.op.x) ELSE FOne IN
       << <<"law-mu", ANear(q.mu, mu, 60000)>>,
          <<"law-likelihood", FClose(q.ll, p.ll, FMul(FDec(1, -5), FAdd(FOne, FAbs(p.ll))))>>,
          <<"law-slope", \A j \in DOMAIN q.beta : FClose(FMul(sc(j), q.beta[j]), FMul(sg, p.beta[j]), FMul(FDec(5, -3), FAdd(FOne, FAbs(p.beta[j]))))>>,
          <<"law-concentration", \A j \in DOMAIN q.gamma : FClose(FMul(sc(j), q.gamma[j]), p.gamma[j], FMul(FDec(5, -3), FAdd(FOne, FAbs(p.gamma[j]))))>> >>

\* the fits of the whole corpus, per kind of model
Tally(r) == << <<"usually-converges", \A k \in 1..3 : r.all[k] < 20 \/ 5 * r.done[k] > r.all[k]>> >>
Init == l = 1 /\ d = <<>> /\ o = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E r \in {Trace[l]} :
           IF r.op.t = "Tally" THEN UNCHANGED <<d, o>> /\ Report(l, Tally(r))
           ELSE \E x \in {IF r.op.t = "New" THEN r.data ELSE PApply(r.op, d)} :
           /\ d' = x
           /\ o' = r
           /\ \E cl \in {<< <<"data", x = r.data>> >> \o Def(r, x) \o (IF r.op.t = "New" THEN <<>> ELSE Law(r, o, x))} : Report(l, cl)
Spec == Init /\ [][Next]_vars
Accepted == AllConsumed
=============================================================================
