----------------------------- MODULE Trace_CcReg -----------------------------
(* Recorded circular-circular regressions (C16). *)
EXTENDS CcReg, TraceBase
VARIABLES l, d, o
vars == <<l, d, o>>
PClose(p, x) == FRel(p, x, FDec(5, -4), FDec(2, -5))
Size1(c) == FoldLeft(LAMBDA s, v : FAdd(s, FAbs(v)), FOne, c)
Eval(X, c) == FoldLeft(LAMBDA v, j : AxpyF(v, FNeg(c[j]), X[j]), [i \in DOMAIN X[1] |-> FZero], [j \in DOMAIN X |-> j])
Normal(X, c, y) == /\ Len(c) = Len(X)
                   /\ LET e == MinusF(y, Eval(X, c)) tol == FMul(FMul(FInt(Len(y)), Size1(c)), FDec(2, -7)) IN
                      \A j \in DOMAIN X : FClose(DotF(e, X[j]), FZero, tol)
NearV(u, v, tol) == Len(u) = Len(v) /\ \A i \in DOMAIN u : FClose(u[i], v[i], tol)
AngTol(len) == 3 + FRound(FDiv(FInt(200), len))
Def(r, x) ==
  LET q == r.o n == Len(x.a) X == Cols(x.a, r.ord) yc == Resp(x.b, FCos) ys == Resp(x.b, FSin)
      f == FitOf(x.a, x.b, r.ord)
      tolc == FMul(FAdd(Size1(q.cc), Size1(q.cs)), FDec(2, -7))
      lenc(i) == FHyp(f.fc[i], f.fs[i])
  IN << <<"no-exception", r.exc = <<>> >>, <<"refuses", q.bad = 0>>,
        <<"normal-equations-cos", Normal(X, q.cc, yc)>>,
        <<"normal-equations-sin", Normal(X, q.cs, ys)>>,
        <<"fitted-from-coefficients", Len(q.fit) = n /\ (Len(q.cc) # Len(X) \/ LET u == Eval(X, q.cc) v == Eval(X, q.cs) IN
             \A i \in 1..n : FLt(FHyp(u[i], v[i]), FMul(FDec(1, 3), tolc)) \/ ANear(q.fit[i], AAtan2(v[i], u[i]), AngTol(FDiv(FHyp(u[i], v[i]), FMul(tolc, FDec(1, 6))))) )>>,
        <<"residuals", Len(q.res) = n /\ \A i \in 1..n : ANear(q.res[i], AWrap(AWrap(x.b[i]) - AWrap(q.fit[i])), 3) /\ IAbs(q.res[i]) <= HalfT + 1>>,
        <<"two-predictors", LET X2 == <<X[1], [i \in 1..n |-> FCos(AWrap(x.a[i]))], [i \in 1..n |-> FCos(AWrap(150000 * (x.x[i] % 2400)))],
                                     [i \in 1..n |-> FSin(AWrap(x.a[i]))], [i \in 1..n |-> FSin(AWrap(150000 * (x.x[i] % 2400)))]>> IN Normal(X2, q.c2, yc) /\ Normal(X2, q.s2, ys) /\ q.lab2 = 1>>,
        <<"two-predictors-tests", LET C(k, F(_)) == [i \in 1..n |-> F(AWrap(k * AWrap(150000 * (x.x[i] % 2400))))]
              X2 == TLCEval(<<X[1], [i \in 1..n |-> FCos(AWrap(x.a[i]))], C(1, FCos), [i \in 1..n |-> FSin(AWrap(x.a[i]))], C(1, FSin)>>)
              W == TLCEval(<<Harm(x.a, 2, FCos), C(2, FCos), Harm(x.a, 2, FSin), C(2, FSin)>>)
              f2 == TLCEval(FitCols(X2, x.b)) IN
            ~f2.ok \/ (\A j \in 1..2 : LET e == IF j = 1 THEN f2.rc ELSE f2.rs g == TLCEval(GainBy(f2.Q, W, e)) IN
               FLt(DotF(e, e), FMul(FDec(1, -3), FInt(n))) \/ ~g.ok
               \/ ((\E adj \in {n - 3, n - 5} : PClose(q.p2[j], ChiSf(FMul(FInt(IF adj < 1 THEN 1 ELSE adj), g.v), 4))) /\ PClose(q.p2x[j], q.p2[j])))>>,
        <<"formula", q.form = 1>>,
        <<"labels", q.lab = 1>>,
        <<"nested", ~f.ok \/ ~NextHarm(x.a, r.ord, f.Q).ok \/ FLe(q.rho, FAdd(q.rhon, FDec(1, -6)))>>,
        <<"message", q.msg = 2 \/ q.msg = (IF FLt(r.level, q.p[1]) /\ FLt(r.level, q.p[2]) THEN 0 ELSE 1) \/ FNear(q.p[1], r.level, FDec(1, -6)) \/ FNear(q.p[2], r.level, FDec(1, -6))>> >>
     \o (IF ~f.ok THEN <<>> ELSE <<
        <<"rho", FNear(FSq(q.rho), f.rho2, FDec(1, -5))>>,
        <<"fitted", \A i \in 1..n : FLt(lenc(i), FDec(1, -2)) \/ ANear(q.fit[i], FDirOf(f, i), 200 + FRound(FDiv(FInt(400), lenc(i))))>>,
        <<"higher-order", LET g == NextHarm(x.a, r.ord, f.Q) IN
            ~g.ok \/ \A j \in 1..2 : LET e == IF j = 1 THEN f.rc ELSE f.rs IN
               FLt(DotF(e, e), FMul(FDec(1, -3), FInt(n))) \/ PClose(q.p[j], ChiSf(HighStat(f, x.a, r.ord, e), 2))>> >>)

Moves(op, v) == IF op.t = "RotB" THEN AWrap(v + op.x) ELSE IF op.t = "RefB" THEN AWrap(-v) ELSE v
Place(op, i, n) == CASE op.t = "RevP" -> n + 1 - i [] op.t = "SwapP" -> (IF i = op.i THEN op.j ELSE IF i = op.j THEN op.i ELSE i) [] OTHER -> i
Law(r, p, x) ==
  IF r.op.t \notin PKeeps \/ r.op.t = "Exchange" THEN <<>>
  ELSE LET q == r.o f == FitOf(x.a, x.b, r.ord) n == Len(x.a) IN
  IF ~f.ok THEN <<>> ELSE <<
     <<"law-rho", FNear(q.rho, p.rho, FDec(1, -6))>>,
     <<"law-fitted", \A i \in 1..n : FLt(FHyp(f.fc[i], f.fs[i]), FDec(1, -3)) \/ ANear(q.fit[i], Moves(r.op, p.fit[Place(r.op, i, n)]), 50)>>,
     <<"law-higher-order", ~NextHarm(x.a, r.ord, f.Q).ok \/ r.op.t = "RotB" \/ FLt(DotF(f.rc, f.rc), FMul(FDec(1, -3), FInt(n))) \/ FLt(DotF(f.rs, f.rs), FMul(FDec(1, -3), FInt(n)))
                           \/ (FNear(q.p[1], p.p[1], FDec(1, -5)) /\ FNear(q.p[2], p.p[2], FDec(1, -5)))>> >>

Init == l = 1 /\ d = <<>> /\ o = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E r \in {Trace[l]} : \E x \in {IF r.op.t = "New" THEN r.data ELSE PApply(r.op, d)} :
           /\ d' = x
           /\ o' = r.o
           /\ \E cl \in {<< <<"data", x = r.data>> >> \o Def(r, x) \o (IF r.op.t = "New" THEN <<>> ELSE Law(r, o, x))} : Report(l, cl)
Spec == Init /\ [][Next]_vars
Accepted == AllConsumed
=============================================================================
