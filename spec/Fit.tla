---------------------------------- MODULE Fit ----------------------------------
(***************************************************************************)
(* Fitting a circular law to weighted readings.                            *)
(*                                                                         *)
(* A fit takes a sample [a, w] to a law [f, loc, p].  A moment fit is the  *)
(* law whose moments are those of the sample (as far as the family reaches *)
(* them); a maximum likelihood fit is a law that neither the moment fit    *)
(* nor any law reached by moving one parameter a little beats.  Turning,   *)
(* mirroring and relabelling the sample act on the fitted law as they act  *)
(* on the sample.                                                          *)
(***************************************************************************)
EXTENDS Dist, Descr

\* families whose density needs no table for its constant
Closed == {"triangular", "cardioid", "cartwright", "wrapnorm", "wrapcauchy", "vonmises", "katojones", "wrapstable"}
\* a law with what is needed to evaluate it
Prep(x) == TLCEval(IF x.f \in Closed THEN [aux |-> Aux(x), z |-> FOne] ELSE Table(x))
\* (concentrated von Mises laws relative to their mode: kappa - ln I0 by its expansion)
LnPdf(x, t, a) ==
  IF x.f = "vonmises" /\ FLt(FInt(300), x.p[1]) THEN
    LET dd == ASigned(AWrap(a - x.loc)) h == FSin(AWrap(dd) \div 2) k == x.p[1] IN
    FSub(FMul(FHalf, FSub(FLn(k), FLn(FTwoPi))), FAdd(FMul(FMul(FTwo, k), FSq(h)), FAdd(FDiv(FDec(125, -3), k), FDiv(FDec(703125, -7), FSq(k)))))
  ELSE IF x.f = "vonmises" THEN FSub(FMul(x.p[1], FCos(AWrap(a - x.loc))), t.aux)
  ELSE IF x.f \in Closed THEN FLn(FMax(Core(x, t.aux, AWrap(a - x.loc)), FDec(1, -300)))
  ELSE FLn(FMax(Pdf(x, t, AWrap(a)), FDec(1, -300)))
\* weighted log-likelihood
LogL(x, d) == LET t == Prep(x) IN FoldLeft(LAMBDA s, i : FAdd(s, FMul(FInt(d.w[i]), LnPdf(x, t, d.a[i]))), FZero, [i \in DOMAIN d.a |-> i])
\* smallest density at the readings
Thinnest(x, d) == LET t == Prep(x) IN FoldLeft(LAMBDA s, i : LET v == LnPdf(x, t, d.a[i]) IN IF FLt(v, s) THEN v ELSE s, FZero, [i \in DOMAIN d.a |-> i])

RhoMax == FDec(40528474, -8)                 \* 4 / pi^2
Within(v, lo, hi) == FLe(lo, v) /\ FLe(v, hi)
Valid(x) ==
  LET p == x.p IN
  /\ \A i \in DOMAIN p : ~FIsNaN(p[i])
  /\ x.loc # ANaN
  /\ CASE x.f = "triangular" -> Within(p[1], FZero, RhoMax)
       [] x.f = "cardioid" -> Within(p[1], FZero, FHalf)
       [] x.f = "cartwright" -> FLt(FZero, p[1])
       [] x.f = "vonmises" -> FLe(FZero, p[1])
       [] x.f \in {"wrapnorm", "wrapcauchy"} -> FLe(FZero, p[1]) /\ FLe(p[1], FOne)
       [] x.f = "vonmises_flattopped" -> FLe(FZero, p[1]) /\ Within(p[2], FNeg(FOne), FOne)
       [] x.f = "jonespewsey" -> FLe(FZero, p[1])
       [] x.f = "jonespewsey_sineskewed" -> FLe(FZero, p[1]) /\ Within(p[3], FNeg(FOne), FOne)
       [] x.f = "jonespewsey_asym" -> FLe(FZero, p[1]) /\ FLe(FZero, p[3]) /\ FLt(p[3], FOne)
       [] x.f = "inverse_batschelet" -> FLe(FZero, p[1]) /\ Within(p[2], FNeg(FOne), FOne) /\ Within(p[3], FNeg(FOne), FOne)
       [] x.f = "wrapstable" -> FLt(FZero, p[1]) /\ FLe(p[1], FTwo) /\ Within(p[2], FNeg(FOne), FOne) /\ FLt(FZero, p[3])
       [] OTHER -> LET la == ARadToA(p[3]) IN
                   /\ FLe(FZero, p[1]) /\ FLt(p[1], FOne) /\ FLe(FZero, p[2]) /\ FLt(p[2], FOne)
                   /\ FLe(FAdd(FSq(FSub(FMul(p[2], FCos(la)), p[1])), FSq(FMul(p[2], FSin(la)))), FAdd(FSq(FSub(FOne, p[1])), FDec(1, -6)))
\* how sharply the density of a law varies
Steep(x) ==
  LET p == x.p IN
  CASE x.f \in {"triangular", "cardioid"} -> FOne
    [] x.f = "cartwright" -> FDiv(FOne, p[1])
    [] x.f \in {"wrapnorm", "wrapcauchy"} -> FDiv(FOne, FMax(FSub(FOne, p[1]), FDec(1, -9)))
    [] x.f = "katojones" -> FDiv(FOne, FMax(FSub(FOne, p[2]), FDec(1, -9)))
    [] x.f = "wrapstable" -> IF FLt(p[1], FDec(5, -1)) \/ FLt(p[3], FDec(1, -1)) THEN FInt(100000) ELSE FDiv(FTwo, p[3])
    [] x.f = "vonmises" -> p[1]
    [] OTHER -> FMul(p[1], FAdd(FOne, FAbs(p[2])))
\* Jones-Pewsey laws with psi < 0 are computed faithfully while kappa |psi| is moderate
Faithful(x) == x.f \notin {"jonespewsey", "jonespewsey_sineskewed", "jonespewsey_asym"} \/ FLe(FMul(x.p[1], FAbs(x.p[2])), FInt(8))

\* --- moment fits
ClipF(v, lo, hi) == FMax(lo, FMin(v, hi))
MeanCos(d) == CBar(d, 1, 0)
MomShape(f, d) ==
  LET r == RLen(d, 1) IN
  CASE f = "triangular" -> << ClipF(MeanCos(d), FZero, RhoMax) >>
    [] f = "cardioid" -> << FMin(r, FHalf) >>
    [] f \in {"wrapnorm", "wrapcauchy"} -> << r >>
    [] f = "cartwright" -> << ClipF(FDiv(FSub(FOne, r), FMax(r, FDec(1, -9))), FDec(1, -6), FDec(1, 6)) >>
    [] f = "katojones" -> << r >>
    [] OTHER -> LET k == KappaCorrected(r, Size(d)) IN
                IF f = "vonmises" THEN <<k>> ELSE IF f = "inverse_batschelet" THEN <<k, FZero, FZero>> ELSE <<k, FZero>>
\* concentration of a Kato-Jones law from its second moment: rho exp(i lambda)
KJSecond(d) == LET r == RLen(d, 1) m == MDir(d, 1) IN [c |-> FDiv(CBar(d, 2, m), r), s |-> FDiv(SBar(d, 2, m), r), g |-> r]
KJInside(z) == FLt(FAdd(FSq(FSub(z.c, z.g)), FSq(z.s)), FMul(FDec(999, -3), FSq(FSub(FOne, z.g))))

\* --- one parameter moved a little: j = 0 the location, j > 0 shape j; up or down
Moved(x, j, up) ==
  LET sg(v) == IF up THEN v ELSE FNeg(v) IN
  IF j = 0 THEN [x EXCEPT !.loc = AWrap(@ + IF up THEN 1000000 ELSE -1000000)]
  ELSE LET big == x.f \in {"vonmises", "cartwright"} \/ (j = 1 /\ x.f \in {"vonmises_flattopped", "jonespewsey", "jonespewsey_sineskewed", "jonespewsey_asym", "inverse_batschelet"})
                  \/ (x.f = "wrapstable" /\ j = 3)
           st == IF big THEN FMul(FDec(2, -2), x.p[j]) ELSE IF x.f \in {"wrapnorm", "wrapcauchy"} THEN FMul(FDec(2, -2), FSub(FOne, x.p[j])) ELSE IF j = 2 /\ x.f \in {"jonespewsey", "jonespewsey_sineskewed", "jonespewsey_asym"} THEN FDec(1, -1) ELSE FDec(1, -2)
       IN [x EXCEPT !.p[j] = FAdd(@, sg(st))]
\* the ranges a fit searches
InSearch(x) ==
  LET p == x.p IN
  /\ Valid(x)
  /\ CASE x.f = "vonmises_flattopped" -> Within(p[2], FDec(-99, -2), FDec(99, -2))
       [] x.f \in {"jonespewsey", "jonespewsey_sineskewed"} -> Within(p[2], FInt(-4), FInt(4)) /\ (Len(p) = 2 \/ Within(p[3], FDec(-99, -2), FDec(99, -2)))
       [] x.f = "jonespewsey_asym" -> Within(p[2], FInt(-4), FInt(4)) /\ FLe(p[3], FDec(99, -2))
       [] x.f = "inverse_batschelet" -> Within(p[2], FDec(-99, -2), FDec(99, -2)) /\ Within(p[3], FDec(-99, -2), FDec(99, -2))
       [] x.f = "wrapstable" -> Within(p[2], FDec(-99, -2), FDec(99, -2)) /\ FLe(p[3], FInt(10))
       [] x.f \in {"wrapnorm", "wrapcauchy"} -> FLt(FZero, p[1]) /\ FLt(p[1], FOne)
       [] OTHER -> TRUE
\* --- what an action on the sample does to the fitted law
MirrorSign(f, j) == (f = "jonespewsey_sineskewed" /\ j = 3) \/ (f = "inverse_batschelet" /\ j = 2) \/ (f = "wrapstable" /\ j = 2) \/ (f = "katojones" /\ j = 3)
MovedLaw(op, x) ==
  IF op.t = "Rotate" THEN [x EXCEPT !.loc = AWrap(@ + op.x)]
  ELSE IF op.t = "Reflect" THEN [x EXCEPT !.loc = AWrap(-@), !.p = [j \in DOMAIN @ |-> IF MirrorSign(x.f, j) THEN IF x.f = "katojones" THEN (IF @[j][1] = 0 THEN @[j] ELSE FSub(FTwoPi, @[j])) ELSE FNeg(@[j]) ELSE @[j]]]
  ELSE x
=============================================================================
