----------------------------- MODULE Trace_Moment -----------------------------
(* Recorded moments, summaries and calling forms of the laws (C22).           *)
EXTENDS Dist, TraceBase
VARIABLES l, o
vars == <<l, o>>
Tol == FDec(3, -6)
Def(r) ==
  LET q == r.o x == r.law IN
     \E t \in {Table(x)} :
     \E am \in {AllMoments(x, t)} :
     \E m \in {TLCEval([p \in 1..3 |-> TurnMoment(am.m[p], AMul(x.loc, p))])} :
     LET tol == FMul(Tol, IF x.f \in {"vonmises_flattopped", "inverse_batschelet", "jonespewsey_asym"} THEN FInt(3) ELSE FOne)
         Len2(v) == FSqrt(FAdd(FSq(v.c), FSq(v.s)))
         r1 == Len2(m[1]) r2 == Len2(m[2])
         flat == FLt(r1, FDec(1, -5)) sharp == FLt(FDec(9999, -4), r1)
         v1 == FSub(FOne, r1)
         u1 == AAtan2(m[1].s, m[1].c)
         \* second moment seen from the mean direction
         k == TurnMoment(m[2], -((2 * u1) % T))
         amp == FAdd(FOne, FDiv(FTwo, r1))
     IN
     Report(l, << <<"no-exception", r.exc = <<>> >>,
       <<"trig-moments", \A p \in 1..3 : FNear(q.tm[2 * p - 1], m[p].c, tol) /\ FNear(q.tm[2 * p], m[p].s, tol)>>,
       <<"resultant-length", FNear(q.r, r1, tol) /\ FLe(FZero, q.r) /\ FLe(q.r, FOne)>>,
       <<"mean-direction", IF flat THEN (x.f = "circularuniform" => q.mean = ANaN) ELSE q.mean >= 0 /\ q.mean <= T /\ ANear(q.mean, u1, 3 + ARadToA(FDiv(FMul(FTwo, tol), r1)))>>,
       <<"variance", FNear(q.var, FSub(FOne, q.r), FDec(2, -8))>>,
       <<"standard-deviation", IF flat THEN TRUE ELSE FClose(FExp(FMul(FNeg(FHalf), FSq(q.std))), r1, FMul(FTwo, tol))>>,
       <<"dispersion", IF flat THEN TRUE ELSE LET w == FDiv(FSub(FOne, r2), FMul(FTwo, FSq(r1))) IN FClose(q.disp, w, FMul(FMul(FInt(4), FDiv(tol, FSq(r1))), FAdd(FOne, FDiv(w, r1))))>>,
       <<"skewness", IF flat \/ sharp THEN TRUE ELSE LET z == FMul(v1, FSqrt(v1)) w == FDiv(k.s, z) IN FClose(q.skew, w, FMul(FMul(FInt(4), amp), FDiv(tol, FMul(z, v1))))>>,
       <<"kurtosis", IF flat \/ sharp THEN TRUE ELSE LET z == FSq(v1) w == FDiv(FSub(k.c, FSq(FSq(r1))), z) IN FClose(q.kurt, w, FMul(FMul(FInt(8), amp), FDiv(tol, FMul(z, v1))))>>,
       <<"entropy", x.f = "circularuniform" \/ FClose(q.ent, am.h, FMul(FInt(4), FMul(tol, FAdd(FOne, FAbs(am.h)))))>>,
       <<"stats", q.stats = 1>>, <<"median-is-quantile", q.median = 1>>, <<"interval", q.interval = 1>>,
       <<"periodic-density", q.per = 1>>, <<"periodic-cdf", q.percdf = 1>>,
       <<"frozen", q.frozen = 0>>, <<"keywords", q.kw = 0>>, <<"shapes", q.shapes = 0>>, <<"parameter-arrays", q.arrays = 0>>,
       <<"location-and-scale-fixed", q.locscale = 0>>, <<"endpoints-closed", q.ends = 1>> >>)
\* a turn of the law turns its moments and leaves its shape alone
Law(r, p) ==
  LET q == r.o b == p.o tol == IF r.law.f \in {"vonmises_flattopped", "inverse_batschelet", "jonespewsey_asym"} THEN FDec(1, -5) ELSE FDec(1, -6) IN
  r.op.t = "Turn" /\ r.law.f \notin Unlocated =>
    Report(l, << <<"turn-length", FNear(q.r, b.r, tol)>>,
                 <<"turn-mean", FLt(b.r, FDec(1, -3)) \/ (ADist(q.mean, b.mean + r.op.x) <= 3 + ARadToA(FDiv(FMul(FTwo, tol), b.r)))>>,
                 <<"turn-entropy", FNear(q.ent, b.ent, FMul(FInt(4), tol))>> >>)
Init == l = 1 /\ o = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E r \in {Trace[l]} : o' = r /\ Def(r) /\ (IF r.op.t = "New" THEN TRUE ELSE Law(r, o))
Spec == Init /\ [][Next]_vars
Accepted == AllConsumed
=============================================================================
