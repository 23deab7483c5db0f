----------------------------- MODULE Trace_Assoc -----------------------------
(* Recorded correlations (C15). *)
EXTENDS Assoc, TraceBase
VARIABLES l, d, o
vars == <<l, d, o>>
PClose(p, x) == FRel(p, x, FDec(2, -4), FDec(1, -5))
Prob(p) == FLe(FZero, p) /\ FLe(p, FOne)
Unit1(r) == FLe(FAbs(r), FDec(10000001, -7))
Tol == FDec(2, -6)
\* equal directions recorded in different turns are equal only to rounding, as is a whole turn to zero
RankClear(a) == /\ \A i, j \in DOMAIN a : a[i] = a[j] \/ AWrap(a[i]) # AWrap(a[j])
                /\ \A i \in DOMAIN a : a[i] = 0 \/ AWrap(a[i]) # 0
FLOk(P) == FLt(FDec(1, -5), FSum(P.aa)) /\ FLt(FDec(1, -5), FSum(P.bb)) /\ FLt(FDec(1, -6), FLDen(P))
AllEq(a) == \A i \in DOMAIN a : a[i] = a[1]
JSOk(A, B) == A # <<>> /\ B # <<>> /\ FLt(FDec(1, -5), DotF(A, A)) /\ FLt(FDec(1, -5), DotF(B, B))
MeanOk(a) == FLt(FDec(1, -4), RLen(Sample1(a), 1))
Def(r, x) ==
  LET q == r.o n == Len(x.a) IN
  << <<"no-exception", r.exc = <<>> >>, <<"refuses", q.bad = 0>> >>
  \o (IF n < 2 THEN << <<"refuses-short", q.short = 1>> >> ELSE
  LET P == TLCEval(PairSums(x)) IN
  (IF AllEq(x.a) \/ AllEq(x.b) THEN << <<"fisher-lee-degenerate", q.flx = 1>> >>
   ELSE IF ~FLOk(P) THEN <<>>
   ELSE << <<"fisher-lee", q.flx = 0 /\ FNear(q.fl, FisherLee(P), FDec(5, -5)) /\ Unit1(q.fl)>>,
           <<"fisher-lee-objects", FNear(q.flo, q.fl, FDec(1, -6)) /\ FNear(q.fle, q.fl, FDec(1, -6))>>,
           <<"fisher-lee-test", n < 4 \/ ~FLt(FDec(1, -3), JackDenMin(P)) \/
                LET J == JackBounds(P) IN FNear(J[1], FZero, FDec(1, -4)) \/ FNear(J[2], FZero, FDec(1, -4)) \/
                  (q.flrej = (IF J[1][1] <= 0 /\ J[2][1] >= 0 THEN 0 ELSE 1) /\ FNear(q.flt, q.fl, FDec(1, -7)))>> >>)
  \o (LET A == SinAbout(x.a) B == SinAbout(x.b) IN
      IF ~MeanOk(x.a) \/ ~MeanOk(x.b) \/ ~JSOk(A, B) THEN <<>>
      ELSE << <<"jammalamadaka", FNear(q.js, JsCor(A, B), FDec(5, -5)) /\ Unit1(q.js)>>,
              <<"jammalamadaka-objects", FNear(q.jso, q.js, FDec(1, -6))>>,
              <<"jammalamadaka-strict", FNear(q.pa, FDec(5, -2), FDec(1, -8)) \/ FNear(q.pb, FDec(5, -2), FDec(1, -8)) \/
                   q.jsref = (IF FLt(q.pa, FDec(5, -2)) /\ FLt(q.pb, FDec(5, -2)) THEN 0 ELSE 1)>>,
              <<"jammalamadaka-test", ~FLt(FDec(1, -6), JsL22(A, B)) \/ (FRel(q.jst, JsStat(A, B), FDec(2, -4), FDec(1, -4)) /\ PClose(q.jsp, NormTwo(q.jst)))>> >>)
  \o (IF n < 3 THEN << <<"refuses-short-rank", q.npx = 1 /\ q.clx = 1>> >>
      ELSE (IF ~RankClear(x.a) \/ ~RankClear(x.b) THEN <<>>
            ELSE LET c == RankCor(x) IN
              << <<"rank", q.npx = 0 /\ FNear(q.np, c, Tol) /\ Unit1(q.np)>>,
                 <<"rank-objects", FNear(q.npo, q.np, FDec(1, -6))>>,
                 <<"rank-test", FNear(FMul(FInt(n - 1), c), RankCrit(n), FDec(1, -4)) \/ q.nprej = IF FLt(RankCrit(n), FMul(FInt(n - 1), c)) THEN 1 ELSE 0>> >>)
        \o (LET z == ClSums(x) IN
            IF ~ClClear(x, z) THEN <<>>
            ELSE << <<"linear", q.clx = 0 /\ FNear(FSq(q.cl), ClR2(z), FDec(2, -4)) /\ FLe(FZero, q.cl) /\ Unit1(q.cl)>>,
                    <<"linear-p", PClose(q.clp, ChiSf(FMul(FInt(n), FSq(q.cl)), 2))>>,
                    <<"linear-objects", FNear(q.clo, q.cl, FDec(1, -6))>> >>))
  \o << <<"probabilities", \A v \in {q.jsp, q.clp} : FIsNaN(v) \/ Prob(v)>> >>)

Sgn(op, r) == IF op.t \in {"RefA", "RefB"} THEN FNeg(r) ELSE r
Law(r, p, x) ==
  IF r.op.t \notin PKeeps \/ Len(x.a) < 3 THEN <<>>
  ELSE LET q == r.o P == TLCEval(PairSums(x)) A == SinAbout(x.a) B == SinAbout(x.b) IN
  << <<"law-fisher-lee", ~FLOk(P) \/ FNear(q.fl, Sgn(r.op, p.fl), FDec(1, -6))>>,
     <<"law-jammalamadaka", ~MeanOk(x.a) \/ ~MeanOk(x.b) \/ ~JSOk(A, B) \/ FNear(q.js, Sgn(r.op, p.js), FDec(1, -5))>>,
     <<"law-rank", ~RankClear(x.a) \/ ~RankClear(x.b) \/ p.clear = 0 \/ FNear(q.np, Sgn(r.op, p.np), FDec(1, -6))>>,
     <<"law-linear", r.op.t = "Exchange" \/ ~ClClear(x, ClSums(x)) \/ FNear(FSq(q.cl), FSq(p.cl), FDec(1, -5))>> >>

Init == l = 1 /\ d = <<>> /\ o = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E r \in {Trace[l]} : \E x \in {IF r.op.t = "New" THEN r.data ELSE PApply(r.op, d)} :
           /\ d' = x
           /\ o' = [fl |-> r.o.fl, js |-> r.o.js, np |-> r.o.np, cl |-> r.o.cl, clear |-> IF RankClear(x.a) /\ RankClear(x.b) THEN 1 ELSE 0]
           /\ \E cl \in {<< <<"data", x = r.data>> >> \o Def(r, x) \o (IF r.op.t = "New" THEN <<>> ELSE Law(r, o, x))} : Report(l, cl)
Spec == Init /\ [][Next]_vars
Accepted == AllConsumed
=============================================================================
