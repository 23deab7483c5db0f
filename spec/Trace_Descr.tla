---------------------------- MODULE Trace_Descr ----------------------------
(* Recorded point estimates against Sample and Descr. *)
EXTENDS Descr, TraceBase
VARIABLES l, d, o
vars == <<l, d, o>>

Tol  == FDec(2, -6)
ATol == 150                                  \* 2.6e-6 rad
FirstMoment(x, p, mu) == <<CBar(x, p, mu), SBar(x, p, mu)>>
FV2(v, w, tol) == Len(v) = Len(w) /\ \A i \in DOMAIN v : FSame(v[i], w[i], tol)
\* a direction is compared through the vector it stands for, so that an
\* ill-determined direction of a short resultant raises no alarm
DirOk(m, c, s, r) ==
  IF FLt(r, FDec(1, -8)) THEN TRUE
  ELSE m # ANaN /\ FNear(FMul(r, FCos(m)), c, Tol) /\ FNear(FMul(r, FSin(m)), s, Tol)
            /\ (FLt(FDec(5, -3), r) => ANear(m, AAtan2(s, c), ATol))
InTurn(m) == m = ANaN \/ (m >= 0 /\ m <= T)

Def(r, x) ==
  LET s == Summary(x)
      q == r.o
      mid == FLt(FDec(1, -2), s.r1) /\ FLt(s.r1, FDec(995, -3))
      one == s.r1
      mu == r.mu
      b == r.bin
      cm == IF q.mean = ANaN THEN 0 ELSE q.mean
      mv == <<q.mean, q.mr>>
  IN <<
    <<"no-exception", r.exc = <<>> >>,
    <<"circ_r", FNear(q.r, s.r1, Tol)>>,
    <<"circ_r-from-C-and-S", FNear(q.r_cs, s.r1, Tol)>>,
    <<"circ_mean", DirOk(q.mean, s.c1, s.s1, s.r1)>>,
    <<"circ_mean-range", InTurn(q.mean) /\ InTurn(q.mr_m)>>,
    <<"circ_mean_and_r", DirOk(q.mr_m, s.c1, s.s1, s.r1) /\ FNear(q.mr_r, s.r1, Tol)>>,
    <<"r-in-unit-interval", FLe(FZero, q.r) /\ FLe(q.r, FDec(1000000001, -9))>>,
    <<"mean-defined-iff-resultant", FLt(FDec(1, -6), s.r1) => (q.mean # ANaN /\ q.mr_m # ANaN)>>,
    <<"compute_C_and_S", FNear(q.cs[1], s.c1, Tol) /\ FNear(q.cs[2], s.s1, Tol)>>,
    <<"circ_moment-p1-4", \A p \in 1..4 : FV2(q.mom[p], FirstMoment(x, p, 0), Tol)>>,
    <<"circ_moment-about", \A p \in 1..3 : FV2(q.momm[p], FirstMoment(x, p, mu), Tol)>>,
    <<"circ_moment-centred", FLt(FDec(1, -3), s.r1) =>
         /\ \A p \in 1..3 : FV2(q.momc[p], FirstMoment(x, p, AAtan2(s.s1, s.c1)), FDec(1, -5))
         /\ FNear(q.momc[1][2], FZero, FDec(1, -6))>>,
    <<"convert_moment", DirOk(q.cv_u, s.c2, s.s2, s.r2) /\ FNear(q.cv_r, s.r2, Tol) /\ InTurn(q.cv_u)>>,
    <<"circ_dispersion", FLt(FDec(2, -2), s.r1) => FRel(q.disp, Dispersion(s), FDec(1, -4), FDec(2, -5))>>,
    <<"circ_skewness", mid => FRel(q.skew, Skewness(s), FDec(2, -4), FDec(1, -3))>>,
    <<"circ_kurtosis", mid => FRel(q.kurt, Kurtosis(s), FDec(2, -4), FDec(1, -2))>>,
    <<"circ_var", FNear(q.var, Variance(s.r1), Tol) /\ FNear(q.var_r, q.var, Tol)>>,
    <<"angular_var", FNear(q.avar, FMul(FTwo, Variance(s.r1)), FDec(4, -6))>>,
    <<"angular_std", FNear(FSq(q.astd), FMul(FTwo, Variance(s.r1)), FDec(4, -6))>>,
    <<"circ_std", (FLt(FDec(1, -2), s.r1)) => FNear(FSq(q.std), FMul(FInt(-2), FLn(s.r1)), FDec(1, -4))>>,
    <<"circ_std-small", (FLt(FDec(9, -1), s.r1)) => FNear(FSq(q.std), FMul(FInt(-2), FLn(s.r1)), FDec(4, -6))>>,
    <<"circ_var-binned", FNear(q.var_b, Variance(GroupedR(s.r1, b)), FDec(4, -6))>>,
    <<"circ_std-binned", FLt(FDec(2, -2), s.r1) /\ FLt(GroupedR(s.r1, b), FDec(999999, -6)) =>
         FNear(FSq(q.std_b), FMul(FInt(-2), FLn(GroupedR(s.r1, b))), FDec(2, -4))>>,
    <<"angular_var-binned", FNear(q.avar_b, FMul(FTwo, Variance(GroupedR(s.r1, b))), FDec(8, -6))>>,
    <<"circ_kappa", FLt(s.r1, FDec(9999, -4)) =>
        FRel(q.kap, KappaHat(s.r1), FMul(FDec(1, -6), FAdd(FOne, FDiv(FDec(2, -1), FSub(FOne, s.r1)))), FDec(1, -5))>>,
    <<"circ_kappa-of-r-and-n", \A i \in DOMAIN r.kp :
        LET kr == r.kp[i][1]  kn == r.kp[i][2][1] IN
        FRel(q.kp[i], KappaCorrected(kr, IF kn = 0 THEN 0 ELSE FRound(r.kp[i][2])), FDec(2, -5), FDec(1, -6))>>,
    <<"circ_kappa-at-1", r.key = "circ_kappa(r=1)" => FLt(FInt(1000), q.kap)>>,
    <<"compute_smooth_params", FNear(FMul(FSq(q.smooth), KappaCorrected(r.kp[1][1], FRound(r.kp[1][2]))),
        FDiv(FInt(7), FExp(FMul(FDec(4, -1), FLn(r.kp[1][2])))), FDec(1, -4))>>
    >>

\* dispersion measures of equally spaced bins use the bin width
Grouped(r, x) ==
  IF r.kind # "grouped" THEN <<>>
  ELSE LET s == Summary(x)
           cons == \A i \in DOMAIN x.w : x.w[i] = x.w[1]
           bw == IF cons THEN 0 ELSE x.a[2] - x.a[1]
           g == GroupedR(s.r1, bw)
       IN << <<"circ_var-grouped", FNear(r.o.gvar, Variance(g), FDec(4, -6))>>,
             <<"circ_std-grouped", FLt(FDec(2, -2), s.r1) /\ FLt(g, FDec(999, -3)) => FNear(FSq(r.o.gstd), FMul(FInt(-2), FLn(g)), FDec(2, -4))>>,
             <<"angular_var-grouped", FNear(r.o.gavar, FMul(FTwo, Variance(g)), FDec(8, -6))>>,
             <<"angular_std-grouped", FLt(g, FOne) => FNear(FSq(r.o.gastd), FMul(FTwo, Variance(g)), FDec(8, -6))>> >>

\* the mean of means: vectors of length r_i at m_i
OfMeans(r) ==
  LET k == Len(r.ms)
      c == FDiv(FSum([i \in 1..k |-> FMul(r.rs[i], FCos(r.ms[i]))]), FInt(k))
      s == FDiv(FSum([i \in 1..k |-> FMul(r.rs[i], FSin(r.ms[i]))]), FInt(k))
      h == FHyp(c, s)
  IN << <<"circ_mean_and_r_of_means", DirOk(r.o.mom_m, c, s, h) /\ FNear(r.o.mom_r, h, Tol) /\ InTurn(r.o.mom_m)>>,
        <<"circ_mean_and_r_of_means-objects", r.o.mom_same = 1>> >>

LTol == FDec(1, -7)
\* what the step did to the implementation's own numbers
Law(op, p, q) ==
  IF op.t = "New" \/ ~KeepsShape(op) THEN <<>>
  ELSE LET okm == FLt(FDec(1, -5), p.r)
           inv(a, b) == FSame(a, b, LTol)
           mid == FLt(FDec(1, -2), p.r) /\ FLt(p.r, FDec(99, -2)) IN
  << <<"law-r", inv(p.r, q.r) /\ inv(p.mr_r, q.mr_r)>>,
     <<"law-mean", okm => ANear(q.mean, MovedDir(op, p.mean), 5) /\ ANear(q.mr_m, MovedDir(op, p.mr_m), 5)>>,
     <<"law-dispersion", mid => FRel(p.disp, q.disp, FDec(1, -6), FDec(1, -6))>>,
     <<"law-skewness", mid => FNear(q.skew, IF op.t = "Reflect" THEN FNeg(p.skew) ELSE p.skew, FDec(1, -5))>>,
     <<"law-kurtosis", mid => FNear(q.kurt, p.kurt, FDec(1, -5))>>,
     <<"law-var", inv(p.var, q.var) /\ inv(p.avar, q.avar)>>,
     <<"law-std", mid => FNear(p.std, q.std, FDec(1, -6)) /\ FNear(p.astd, q.astd, FDec(1, -6))>>,
     <<"law-kappa", FLt(p.r, FDec(999999, -6)) => FRel(p.kap, q.kap, FDec(1, -5), FDec(1, -6))>> >>

Init == l = 1 /\ d = <<>> /\ o = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E r \in {Trace[l]} : \E x \in {IF r.op.t = "New" THEN r.data ELSE Apply(r.op, d)} :
           /\ d' = x
           /\ o' = r.o
           /\ \E cl \in {<< <<"data", x = r.data>> >> \o Def(r, x) \o Grouped(r, x) \o OfMeans(r) \o Law(r.op, o, r.o)} : Report(l, cl)
Spec == Init /\ [][Next]_vars
Accepted == AllConsumed
=============================================================================
