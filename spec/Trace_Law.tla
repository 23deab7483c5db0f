------------------------------ MODULE Trace_Law ------------------------------
(* Recorded densities, distribution and quantile functions (C21).            *)
EXTENDS Dist, TraceBase
VARIABLES l, o
vars == <<l, o>>
\* the implementation tabulates three of the families: its interpolation error grows with the peak, and where the inverse
\* Batschelet law is nearly cusped
TabOf(x, peak) ==
  CASE x.f = "jonespewsey_asym" -> FAdd(FDec(4, -6), FMul(FDec(4, -6), FSq(peak)))
    [] x.f = "vonmises_flattopped" -> FAdd(FDec(1, -5), FMul(FDec(4, -5), FSq(peak)))
    [] x.f = "inverse_batschelet" -> FAdd(FDec(5, -5), FMul(FDec(4, -5), FSq(peak)))
    [] OTHER -> FDec(2, -6)
InUnit(v) == FLe(FZero, v) /\ FLe(v, FOne)
LnOf(y, x) == IF FIsNaN(x) THEN FALSE ELSE IF FLt(x, FDec(1, -12)) THEN TRUE ELSE FNear(y, FLn(x), FDec(2, -6))
Def(r) ==
  LET q == r.o x == r.law n == 1..Len(r.xs)
  IN \* one table per law
     \E t \in {Table(x)} :
     \E c \in {TLCEval([i \in n |-> Cdf(x, t, r.xs[i])])} :
     \E f \in {TLCEval([i \in n |-> Pdf(x, t, r.xs[i])])} :
     LET spots == IF x.f = "inverse_batschelet" THEN << OffsetOf(x, 0) >> ELSE IF x.f = "jonespewsey_asym" THEN [i \in 1..40 |-> T - i * 2000000] ELSE <<0>>
         peak == FoldLeft(LAMBDA s, i : FMax(s, f[i]), FoldLeft(LAMBDA s, e : FMax(s, Pdf(x, t, AWrap(x.loc + e))), FOne, spots), [i \in n |-> i])
         tab == TabOf(x, peak) IN
     Report(l, << <<"no-exception", r.exc = <<>> >>,
       <<"density", \A i \in n : FNear(q.pdf[i], f[i], FAdd(FMul(FDec(5, -6), f[i]), FMul(FDec(2, -7), peak)))>>,
       <<"density-nonnegative", \A i \in n : FLe(FZero, q.pdf[i])>>,
       <<"log-density", \A i \in n : LnOf(q.logpdf[i], q.pdf[i])>>,
       <<"cdf", \A i \in n : FNear(q.cdf[i], c[i], tab)>>,
       <<"cdf-in-unit", \A i \in n : InUnit(q.cdf[i])>>,
       <<"cdf-monotone", \A i, j \in n : r.xs[i] <= r.xs[j] => FLe(q.cdf[i], FAdd(q.cdf[j], FDec(1, -9)))>>,
       <<"cdf-ends", q.ends[1] = FZero /\ q.ends[2] = FOne>>,
       <<"sf", \A i \in n : FNear(q.sf[i], FSub(FOne, q.cdf[i]), FDec(1, -7)) /\ InUnit(q.sf[i])>>,
       <<"log-cdf", \A i \in n : LnOf(q.logcdf[i], q.cdf[i])>>,
       <<"log-sf", \A i \in n : LnOf(q.logsf[i], q.sf[i])>>,
       <<"quantile-range", \A i \in DOMAIN r.qs : q.ppf[i] >= 0 /\ q.ppf[i] <= T>>,
       <<"quantile", \A i \in DOMAIN r.qs : q.ppf[i] < 0 \/ q.ppf[i] > T \/ FNear(Cdf(x, t, q.ppf[i]), FDec(r.qs[i], -6), tab)>>,
       <<"quantile-monotone", \A i, j \in DOMAIN r.qs : r.qs[i] < r.qs[j] => q.ppf[i] <= q.ppf[j]>>,
       <<"isf", \A i \in DOMAIN r.qs : q.isf[i] >= 0 /\ q.isf[i] <= T /\ FNear(Cdf(x, t, q.isf[i]), FSub(FOne, FDec(r.qs[i], -6)), tab)>>,
       <<"quantile-outside", q.out = 1>>, <<"refuses", q.bad = 0>>, <<"round-trip", q.trip = 1>>, <<"nan", q.nan = 1>> >>)
Init == l = 1 /\ o = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E r \in {Trace[l]} : o' = r.o /\ Def(r)
Spec == Init /\ [][Next]_vars
Accepted == AllConsumed
=============================================================================
