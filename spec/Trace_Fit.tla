------------------------------ MODULE Trace_Fit ------------------------------
(* Recorded fits of circular laws against Fit (C25).                         *)
EXTENDS Fit, TraceBase
VARIABLES l, d, o
vars == <<l, d, o>>
DimOf(f) == CASE f \in {"triangular", "cardioid", "cartwright", "wrapnorm", "wrapcauchy", "vonmises"} -> 1
              [] f \in {"vonmises_flattopped", "jonespewsey"} -> 2
              [] OTHER -> 3
\* accuracy of a log density: tables of the implementation, and steep laws at readings known to a unit
PTol(x) == FAdd(IF x.f \in {"vonmises_flattopped", "inverse_batschelet", "jonespewsey_asym"} THEN FDec(2, -4) ELSE FDec(1, -5), FMul(IF x.f = "cartwright" THEN FDec(2, -6) ELSE FDec(2, -8), Steep(x)))
LTol(x, n, ll) == FAdd(FMul(FInt(n), PTol(x)), FMul(FAbs(ll), FDec(1, -7)))
MaxSteep(x) == IF x.f = "vonmises" THEN FInt(60000) ELSE FInt(400)
Shape(x, K) == Len(x.p) = K
SameShape(a, b, tol) == Len(a.p) = Len(b.p) /\ \A j \in DOMAIN a.p : FRel(a.p[j], b.p[j], tol, tol)
\* numerical fits of the Jones-Pewsey laws stop short where the law is all but a spike; sine-skewed fits are optimal in the skewness given the rest only when two-step
Settled(f, m, e, j) == CASE f = "jonespewsey" -> FLe(FMul(e.p[1], FAbs(e.p[2])), FTwo) /\ FLt(FAbs(e.p[2]), FDec(39, -1))
                         [] f = "jonespewsey_sineskewed" -> FLe(FMul(e.p[1], FAbs(e.p[2])), FTwo) /\ FLt(FAbs(e.p[2]), FDec(39, -1)) /\ FLt(e.p[1], FInt(30)) /\ m = "two-step" /\ j = 3
                         [] OTHER -> TRUE
Def(r, x) ==
  LET q == r.o n == Size(x) e == q.est IN
  << <<"no-exception", \A i \in DOMAIN r.why : r.why[i][2] = "RuntimeError" \/ (r.fam = "jonespewsey_asym" /\ r.why[i][2] = "Timeout")>> >> \o
  (IF r.exc # <<>> THEN <<>> ELSE
   << <<"valid", q.ok = 1 /\ e.f = r.fam /\ Len(e.p) = DimOf(r.fam) /\ Valid(e)>>,
      <<"refuses", q.bad = 0>>, <<"info", q.info = 1>>, <<"repeatable", q.same = 1>>,
      <<"moments-mirrored", r.fam # "wrapstable" \/ FLt(RLen(x, 1), FDec(1, -2)) \/ FLt(RLen(x, 2), FDec(1, -2)) \/
          LET mv == MovedLaw([t |-> "Reflect"], q.ws) IN SameShape(q.wsm, mv, FDec(1, -5)) /\ ANear(q.wsm.loc, mv.loc, 2000)>>,
      <<"moments-turned", r.fam # "wrapstable" \/ FLt(RLen(x, 1), FDec(1, -2)) \/ FLt(RLen(x, 2), FDec(1, -2)) \/
          LET mv == MovedLaw([t |-> "Rotate", x |-> 90000000], q.ws) IN SameShape(q.wst, mv, FDec(1, -5)) /\ ANear(q.wst.loc, mv.loc, 2000)>>,
      <<"n-effective", FRel(q.neff, FDiv(FSq(FInt(n)), FInt(FoldLeft(LAMBDA s, v : s + v * v, 0, x.w))), FDec(1, -6), FZero)>> >> \o
   (IF ~Valid(e) \/ ~FLt(Steep(e), MaxSteep(e)) \/ ~Faithful(e) THEN <<>> ELSE
    LET ll == TLCEval(LogL(e, x)) tol == TLCEval(LTol(e, n, ll))
        thin == FLt(Thinnest(e, x), FInt(-9)) /\ e.f \in {"cardioid", "katojones", "triangular"}
        r1 == TLCEval(RLen(x, 1)) m1 == TLCEval(MDir(x, 1))
        mo == TLCEval(MomShape(r.fam, x))
        k == r.pk % (DimOf(r.fam) + 1) j == IF r.fam = "triangular" THEN 1 ELSE k
        nb == Moved(e, j, r.pk >= 500)
    IN << <<"loglik", q.nll = 1 \/ thin \/ (e.f = "jonespewsey_asym" /\ FLt(FTwo, FMul(e.p[1], FAbs(e.p[2])))) \/ FClose(q.ll, ll, FMul(FTwo, tol))>> >> \o
       (IF r.m # "moments" THEN
         << <<"beats-the-moment-fit", (r.fam # "katojones" /\ Valid(q.mom) /\ FLt(Steep(q.mom), MaxSteep(q.mom)) /\ Faithful(q.mom)) => FLe(LogL(q.mom, x), FAdd(ll, FAdd(tol, FMul(FInt(n), FDec(2, -5)))))>>,
            <<"beats-its-neighbours", (~thin /\ r.fam \notin {"wrapstable", "jonespewsey_asym", "katojones"} /\ (r.fam = "cartwright" => FLt(e.p[1], FInt(50))) /\ Settled(r.fam, r.m, e, j) /\ InSearch(nb) /\ Faithful(nb)) => FLe(LogL(nb, x), FAdd(ll, FAdd(tol, FMul(FInt(n), FDec(2, -5)))))>> >>
        ELSE IF FLt(r1, FDec(1, -3)) THEN <<>>
        ELSE << <<"moment-direction", r.fam = "triangular" \/ ANear(e.loc, m1, 5 + FRound(FDiv(FInt(5), r1)))>>,
                <<"moment-shape", r.fam = "katojones" \/ \A i \in DOMAIN mo :
                    FRel(e.p[i], mo[i], FMul(FDec(1, -6), FAdd(FInt(2), FDiv(FOne, FMax(FDec(1, -4), FSub(FOne, r1))))), FAdd(FDec(1, -5), FDiv(FDec(1, -6), r1)))>>,
                <<"moment-katojones", r.fam = "katojones" => FNear(e.p[1], r1, FDec(1, -6)) /\
                    LET z == KJSecond(x) la == ARadToA(e.p[3]) IN KJInside(z) => FClose(FMul(e.p[2], FCos(la)), z.c, FDiv(FDec(1, -5), r1)) /\ FClose(FMul(e.p[2], FSin(la)), z.s, FDiv(FDec(1, -5), r1))>> >>) \o
       << <<"weights-are-repeats", (r.fam = "katojones" /\ r.m = "mle") \/ (Valid(q.rep) /\ LET l2 == LogL(q.rep, x) IN FClose(ll, l2, FAdd(tol, FMul(FInt(n), FDec(2, -5)))))>>,
          <<"weights-are-repeats-moments", r.m = "moments" => SameShape(q.rep, e, FDec(1, -5))>> >>))
\* what the action on the data does to the fit
Law(r, p) ==
  LET e == r.o.est op == r.op IN
  IF r.exc # <<>> \/ op.t \notin (Relabel \cup {"Rotate", "Reflect"}) THEN <<>>
  ELSE IF (r.fam = "triangular" /\ op.t \in {"Rotate", "Reflect"}) \/ (r.fam = "jonespewsey_asym" /\ op.t = "Reflect") THEN <<>>
  ELSE IF ~Valid(e) \/ ~Valid(p.est) \/ ~FLt(Steep(e), MaxSteep(e)) \/ ~Faithful(e) \/ ~Faithful(p.est) \/ FLt(RLen(r.data, 1), FDec(1, -3)) THEN <<>>
  ELSE IF r.fam \in {"wrapstable", "jonespewsey_asym"} \/ ~Settled(r.fam, "two-step", e, 3) \/ (r.fam = "katojones" /\ r.m = "mle") THEN <<>>
  ELSE LET mv == MovedLaw(op, p.est) n == Size(r.data)
           la == TLCEval(LogL(e, r.data)) lb == TLCEval(LogL(mv, r.data)) IN
       << <<"law-likelihood", FClose(la, lb, FAdd(LTol(e, n, la), FMul(FInt(n), FDec(5, -5))))>>,
          <<"law-shape", (r.m = "moments" \/ r.fam \in {"vonmises", "triangular"}) => SameShape(e, mv, FDec(2, -4))>>,
          <<"law-location", (r.m = "moments" \/ (r.fam = "vonmises" /\ FLt(FDec(1, -1), e.p[1]))) /\ r.fam # "triangular" => ANear(e.loc, mv.loc, 2000)>> >>
Init == l = 1 /\ d = <<>> /\ o = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E r \in {Trace[l]} : \E x \in {IF r.op.t = "New" THEN r.data ELSE Apply(r.op, d)} :
           /\ d' = x
           /\ o' = [o |-> r.o, ok |-> r.exc = <<>>]
           /\ \E cl \in {<< <<"data", x = r.data>> >> \o Def(r, x) \o (IF r.op.t = "New" \/ ~o.ok THEN <<>> ELSE Law(r, o.o))} : Report(l, cl)
Spec == Init /\ [][Next]_vars
Accepted == AllConsumed
=============================================================================
