---------------------------- MODULE Trace_Angle ----------------------------
(* Recorded angle arithmetic (C01) against Trig and Special. *)
EXTENDS Descr, Special, TraceBase
VARIABLES l, d, o
vars == <<l, d, o>>
Tol == FDec(1, -6)
N(x) == DOMAIN x.a

Sig(p) == IF FLt(p, FDec(1, -3)) THEN "***" ELSE IF FLt(p, FDec(1, -2)) THEN "**"
          ELSE IF FLt(p, FDec(5, -2)) THEN "*" ELSE IF FLt(p, FDec(1, -1)) THEN "." ELSE ""

Def(r, x) == LET q == r.o IN <<
  <<"no-exception", r.exc = <<>> >>,
  <<"angmod", Len(q.am) = Len(x.a) /\ \A i \in N(x) : ANear(q.am[i], x.a[i], 2) /\ AIsWrapped(q.am[i])>>,
  <<"angmod-half-open", q.am_in = 1>>,
  <<"angmod-scalar-agrees", q.am_sc = 1>>,
  <<"angmod-keeps-argument", q.am_keep = 1>>,
  \* any target interval, not only one turn
  <<"angmod-bounds", Len(q.ab) = Len(x.a) /\ \A i \in N(x) :
      LET e == r.lo + (((x.a[i] % r.span) - (r.lo % r.span)) % r.span)  f == q.ab[i] IN
      (f - e) \in -3..3 \/ (f - e - r.span) \in -3..3 \/ (f - e + r.span) \in -3..3 >>,
  <<"angmod-bounds-range", q.ab_in = 1 /\ \A i \in N(x) : q.ab[i] >= r.lo - 2 /\ q.ab[i] <= r.lo + r.span + 2>>,
  <<"angmod-bad-bounds-refused", q.ab_bad = 1>>,
  \* conversions of a scale with k intervals
  <<"data2rad", \A i \in DOMAIN r.u : FRel(q.d2r[i], FDiv(FMul(FTwoPi, r.u[i]), r.k), Tol, FDec(1, -9))>>,
  <<"rad2data", \A i \in DOMAIN r.u : FRel(q.r2d[i], FDiv(FMul(r.k, r.u[i]), FTwoPi), Tol, FDec(1, -9))>>,
  <<"rad2data-none", q.r2n = 1>>,
  <<"rad2data-inverts-data2rad", \A i \in DOMAIN r.u : FRel(q.rt[i], r.u[i], Tol, FDec(1, -9))>>,
  <<"time2float", \A i \in DOMAIN r.hm : FNear(q.t2f[i], FAdd(FInt(r.hm[i][1]), FDiv(FInt(r.hm[i][2]), FInt(60))), Tol)>>,
  <<"angular_distance", Len(q.ad) = Len(x.a) /\ \A i \in N(x) : q.ad[i] - ADist(x.a[i], r.b) \in -3..3>>,
  <<"angular_distance-scalar-list-symmetric", q.ad_sym = 1>>,
  <<"within-range", \A i \in DOMAIN r.arcs :
      LET v == r.arcs[i][1] lo == r.arcs[i][2] hi == r.arcs[i][3]
          exact(a, b) == a = b \/ ADist(a, b) > 2 IN
      (exact(v, lo) /\ exact(v, hi) /\ exact(lo, hi)) => (q.wr[i] = 1) = AInArc(v, lo, hi)>>,
  <<"rotate-degree", \A i \in N(x) : ANear(q.rotd[i], AWrap(x.a[i]) + r.b, 3) /\ AIsWrapped(q.rotd[i])>>,
  <<"rotate-radian", \A i \in N(x) : ANear(q.rotr[i], AWrap(x.a[i]) + r.b, 3) /\ AIsWrapped(q.rotr[i])>>,
  <<"rotate-hour", \A i \in N(x) : ANear(q.roth[i], AWrap(x.a[i]) + r.b, 3) /\ AIsWrapped(q.roth[i])>>,
  <<"rotate-bad-unit-refused", q.rot_bad = 1>>,
  <<"A1", \A i \in DOMAIN r.kap : FRel(q.a1[i], A1K(r.kap[i]), FDec(3, -6), FDec(1, -9))>>,
  <<"A1-below-1-and-vector", q.a1_ok = 1>>,
  <<"A1inv", \A i \in DOMAIN r.rr : FRel(q.a1i[i], KappaHat(r.rr[i]), FDec(1, -5), FDec(1, -7))>>,
  <<"A1inv-inverts-A1", \A i \in DOMAIN r.rr : FLt(r.rr[i], FDec(97, -2)) => FNear(A1K(q.a1i[i]), r.rr[i], FDec(12, -3))>>,
  <<"significance_code", \A i \in DOMAIN r.ps : q.sig[i] = Sig(r.ps[i])>> >>

\* angmod and angular_distance are functions of the direction only
Law(op, p, q) ==
  IF op.t \in {"Turn", "Wrap"} THEN
    << <<"law-angmod-turn", \A i \in DOMAIN p.am : ANear(p.am[i], q.am[i], 2)>> >>
  ELSE IF op.t = "Rotate" THEN
    << <<"law-angmod-rotate", \A i \in DOMAIN p.am : ANear(p.am[i] + AWrap(op.x), q.am[i], 4)>> >>
  ELSE IF op.t = "Reflect" THEN
    << <<"law-angmod-reflect", \A i \in DOMAIN p.am : ANear(-p.am[i], q.am[i], 4)>> >>
  ELSE <<>>

Init == l = 1 /\ d = <<>> /\ o = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E r \in {Trace[l]} : \E x \in {IF r.op.t = "New" THEN r.data ELSE Apply(r.op, d)} :
           /\ d' = x
           /\ o' = r.o
           /\ \E cl \in {<< <<"data", x = r.data>> >> \o Def(r, x) \o Law(r.op, o, r.o)} : Report(l, cl)
Spec == Init /\ [][Next]_vars
Accepted == AllConsumed
=============================================================================
