---------------------------- MODULE Trace_MeanCI ----------------------------
(* Recorded confidence intervals of the mean direction (C05). *)
EXTENDS Interval, TraceBase
VARIABLES l, d, o
vars == <<l, d, o>>

Tol == FDec(2, -6)
Half(iv) == LET x == AWrap(iv[2] - iv[1]) IN IF x > T - 20 THEN 0 ELSE x \div 2
\* iv = <<lower, upper>> is symmetric about direction m and has sin^2 of its half-width as given
Symmetric(iv, m) == iv[1] # ANaN /\ iv[2] # ANaN /\ ADist(AWrap(iv[1] + Half(iv)), m) <= 60
Sin2Is(iv, e, r1) ==
  LET s == FSin(Half(iv)) IN
  FRel(FSq(s), e, FAdd(FDec(2, -4), FDiv(FDec(1, -7), FSub(FDec(1000001, -6), r1))), FDec(1, -9))
Wrapped(iv) == \A v \in {iv[1], iv[2]} : v >= 0 /\ v <= T
NearIv(x, y, tol) == ANear(x[1], y[1], tol) /\ ANear(x[2], y[2], tol)
MovedIv(iv, op) == IF op.t = "Rotate" THEN <<AWrap(iv[1] + op.x), AWrap(iv[2] + op.x)>>
                   ELSE IF op.t = "Reflect" THEN <<AWrap(-iv[2]), AWrap(-iv[1])>> ELSE iv

\* enough different directions that resamples are not degenerate
Spread(x) == Size(x) >= 10 /\ Cardinality({AWrap(x.a[i]) : i \in DOMAIN x.a}) >= 7
\* r well away from the limits of the formulas
FarFrom(x, y) == ~FRel(x, y, FDec(1, -5), FDec(1, -6))

Def(r, x) ==
  LET s == Summary(x) q == r.o n == s.n
      lim(c) == RMin2(n, c)
      sure == FarFrom(s.r1, FDec(9, -1)) /\ FLt(s.r1, FDec(99999, -5))
      Sharp(c) == n < 8 \/ FarFrom(FSq(s.r1), lim(c))
      Valid(c) == n >= 8 /\ ~FLt(FSq(s.r1), lim(c))
      D == FDiv(FSub(FOne, s.r2), FMul(FTwo, FSq(s.r1)))
      DValid(c) == n >= 25 /\ FLt(DispSin2(n, D, c), FOne)
      DSharp(c) == n < 25 \/ (FLt(FDec(2, -2), s.r1) /\ FarFrom(DispSin2(n, D, c), FDec(1, 0)) /\ ~FRel(DispSin2(n, D, c), FOne, FDec(2, -3), FDec(1, -3)))
      Rayleigh == FExp(FNeg(FMul(FInt(n), FSq(s.r1))))
  IN <<
    <<"approximate-refused", \A i \in DOMAIN r.cis : LET c == r.cis[i] IN Sharp(c) => ((q.ap[i] = <<>>) = ~Valid(c))>>,
    <<"approximate-centre", \A i \in DOMAIN r.cis : (q.ap[i] # <<>> /\ FLt(FDec(1, -2), s.r1)) => Symmetric(q.ap[i], s.m1) /\ Wrapped(q.ap[i])>>,
    <<"approximate-width", \A i \in DOMAIN r.cis : LET c == r.cis[i] IN
        (q.ap[i] # <<>> /\ Sharp(c) /\ Valid(c) /\ sure) => Sin2Is(q.ap[i], ApproxSin2(n, s.r1, c), s.r1)>>,
    <<"approximate-from-summary", \A i \in DOMAIN r.cis : (q.aps[i] = <<>>) = (q.ap[i] = <<>>) /\ (q.ap[i] # <<>> => NearIv(q.aps[i], q.ap[i], 3))>>,
    <<"approximate-weights", \A i \in DOMAIN r.cis : q.apx[i] = <<>> \/ q.ap[i] = <<>> \/ NearIv(q.apx[i], q.ap[i], 60)>>,
    <<"dispersion-refused", \A i \in DOMAIN r.cis : LET c == r.cis[i] IN DSharp(c) => ((q.di[i] = <<>>) = ~DValid(c))>>,
    <<"dispersion-centre", \A i \in DOMAIN r.cis : (q.di[i] # <<>> /\ FLt(FDec(1, -2), s.r1)) => Symmetric(q.di[i], s.m1) /\ Wrapped(q.di[i])>>,
    <<"dispersion-width", \A i \in DOMAIN r.cis : LET c == r.cis[i] IN
        (q.di[i] # <<>> /\ DSharp(c) /\ DValid(c) /\ FLt(s.r1, FDec(9999, -4))) => Sin2Is(q.di[i], DispSin2(n, D, c), s.r1)>>,
    <<"dispersion-given-mean", \A i \in DOMAIN r.cis : q.di[i] # <<>> => NearIv(q.dim[i], q.di[i], 3)>>,
    <<"wider-with-level", \A i \in DOMAIN r.cis : i > 1 =>
        /\ (q.ap[i] # <<>> /\ q.ap[i - 1] # <<>>) => Half(q.ap[i]) >= Half(q.ap[i - 1]) - 3
        /\ (q.di[i] # <<>> /\ q.di[i - 1] # <<>>) => Half(q.di[i]) >= Half(q.di[i - 1]) - 3>>,
    <<"refuses", q.bad = 1>>,
    \* bootstrap (only where it was run)
    <<"bootstrap-refused", r.boot = 1 => (~FRel(Rayleigh, FDec(5, -2), FDec(1, -4), FDec(1, -6)) => ((q.bs = <<>>) = FLt(FDec(5, -2), Rayleigh)))>>,
    <<"bootstrap-repeats", (r.boot = 1 /\ q.bs # <<>>) => q.bs2 = q.bs>>,
    <<"bootstrap-weights", (r.boot = 1 /\ q.bs # <<>>) => q.bsw = q.bs>>,
    <<"bootstrap-turns", (r.boot = 1 /\ q.bs # <<>> /\ Spread(x)) => NearIv(q.bsr, <<AWrap(q.bs[1] + r.turn), AWrap(q.bs[2] + r.turn)>>, 30)>>,
    <<"bootstrap-whole-turns", (r.boot = 1 /\ q.bs # <<>> /\ Spread(x)) => NearIv(q.bst, q.bs, 30)>>,
    <<"bootstrap-around-mean", (r.boot = 1 /\ q.bs # <<>>) => Wrapped(q.bs) /\ ADist(AWrap(q.bs[1] + Half(q.bs)), s.m1) <= 2 * Half(q.bs) + 200>>,
    <<"bootstrap-width", (r.boot = 1 /\ q.bs # <<>> /\ n >= 14 /\ FLt(FDec(4, -1), s.r1) /\ FLt(FDec(1, -4), FSub(FOne, s.r1))) =>
        LET w == FMul(FInt(2), FSq(FSin(Half(q.bs) \div 2)))
            v == FMul(FHalf, DispSin2(n, D, 800)) IN                \* half-width^2 / 2 for level 0.8
        FLt(v, FMul(FInt(6), w)) /\ FLt(w, FMul(FInt(6), v))>> >>

\* what the action did to the intervals of the step before
Law(r, p) ==
  IF r.op.t \notin (Relabel \cup {"Rotate", "Reflect"}) \/ p = <<>> THEN <<>>
  ELSE << <<"law-approximate", \A i \in DOMAIN r.o.apf : (r.o.apf[i] # <<>> /\ p.apf[i] # <<>>) => NearIv(r.o.apf[i], MovedIv(p.apf[i], r.op), 60)>>,
          <<"law-dispersion", \A i \in DOMAIN r.o.dif : (r.o.dif[i] # <<>> /\ p.dif[i] # <<>>) => NearIv(r.o.dif[i], MovedIv(p.dif[i], r.op), 60)>> >>

Init == l = 1 /\ d = <<>> /\ o = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E r \in {Trace[l]} : \E x \in {IF r.op.t = "New" THEN r.data ELSE Apply(r.op, d)} :
           /\ d' = x
           /\ o' = r.o
           /\ \E cl \in {<< <<"data", x = r.data>>, <<"no-exception", r.exc = <<>> >> >> \o Def(r, x) \o (IF r.op.t = "New" THEN <<>> ELSE Law(r, o))} : Report(l, cl)
Spec == Init /\ [][Next]_vars
Accepted == AllConsumed
=============================================================================
