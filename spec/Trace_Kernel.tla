----------------------------- MODULE Trace_Kernel -----------------------------
(* Recorded density estimates and data sets against Kernel (C27).             *)
EXTENDS Kernel, TraceBase
VARIABLES l, d, o
vars == <<l, d, o>>
Def(r, x) ==
  LET q == r.o h == r.h IN
  << <<"no-exception", r.exc = <<>> >> >> \o
  (IF r.exc # <<>> THEN <<>> ELSE
   << <<"grid", Len(q.x) = 100 /\ Len(q.f) = 100 /\ \A k \in 1..100 : ANear(q.x[k], IF k = 100 THEN T ELSE Grid(k - 1), 3)>>,
      <<"non-negative", \A k \in 1..100 : FLe(FZero, q.f[k])>>,
      <<"estimate", \A i \in DOMAIN r.ix : LET k == r.ix[i] f == Estimate(x, Grid(k), h) IN FNear(q.f[k + 1], Height(f, r.q), FDec(2, -5))>>,
      <<"density", \A i \in DOMAIN r.ix : LET k == r.ix[i] f == Estimate(x, Grid(k), h) IN FNear(Density(q.f[k + 1], r.q), f, FDec(1, -4))>>,
      <<"closes", FSame(q.f[1], q.f[100], FDec(1, -7))>>,
      <<"integrates-to-one", h < 30000000 \/ FClose(FMul(FSum([k \in 1..99 |-> Density(q.f[k], r.q)]), FDec(63466518, -9)), FOne, FDec(3, -3))>>,
      <<"radius", FRel(FMul(q.f1, r.q), q.f[r.ix[1] + 1], FDec(1, -6), FDec(1, -7))>>,
      <<"untouched", q.kept = 1>> >>)
Law(r, p) ==
  IF r.exc # <<>> \/ p = <<>> \/ r.h # p.h \/ r.q # p.q THEN <<>>
  ELSE IF r.op.t \in {"Turn", "Wrap", "Swap", "Reverse"} THEN << <<"law-relabel", \A k \in 1..100 : FSame(r.o.f[k], p.f[k], FDec(1, -6))>> >>
  ELSE IF r.op.t = "Reflect" THEN << <<"law-reflect", \A k \in 1..100 : FSame(r.o.f[k], p.f[101 - k], FDec(1, -6))>> >>
  ELSE <<>>
Catalogue(r) ==
  << <<"loads", r.e = "">>, <<"documented-columns", r.cols = r.doc>>, <<"rows", r.rows = r.lines>>, <<"contents", r.sum = r.file>>,
     <<"copies-are-independent", r.again = r.sum /\ r.mine = 1>>, <<"refuses-unknown", r.bad = 0>> >>
Init == l = 1 /\ d = <<>> /\ o = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E r \in {Trace[l]} :
           IF r.op.t = "Load" THEN d' = <<>> /\ o' = <<>> /\ (\E cl \in {Catalogue(r)} : Report(l, cl))
           ELSE \E x \in {IF r.op.t = "New" THEN r.data ELSE Apply(r.op, d)} :
                /\ d' = x
                /\ o' = IF r.exc # <<>> THEN <<>> ELSE [f |-> r.o.f, h |-> r.h, q |-> r.q]
                /\ \E cl \in {<< <<"data", x = r.data>> >> \o Def(r, x) \o (IF r.op.t = "New" THEN <<>> ELSE Law(r, o))} : Report(l, cl)
Spec == Init /\ [][Next]_vars
Accepted == AllConsumed
=============================================================================
