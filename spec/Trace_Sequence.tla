---------------------------- MODULE Trace_Sequence ----------------------------
(* Recorded change point tests (C14). *)
EXTENDS Sequence, TraceBase
VARIABLES l, d, o
vars == <<l, d, o>>
Def(r, x) ==
  LET q == r.o n == Len(x.a) p == Parts(x.a) D == RDiff(p) sc == FMul(FInt(n), FDec(5, -7)) IN
  << <<"no-exception", r.exc = <<>> >> >>
  \o (IF n < 4 THEN << <<"refuses-short", q.refused = 1>> >> ELSE
  << <<"n", q.n = n>>,
     <<"rho", FNear(q.rho, FDiv(p.A, FInt(n)), FDec(5, -7))>>,
     <<"rmax", FNear(q.rmax, FMaxOf(D), sc)>>,
     <<"rave", FNear(q.rave, FMeanOf(D), sc)>>,
     <<"r-position", q.kr \in 0..(n - 1) /\ FNear(D[q.kr + 1], FMaxOf(D), FMul(FTwo, sc))>> >>
  \o (IF ~SegClear(p) THEN <<>> ELSE LET V == TVal(p) m == FMaxOf(V) IN
  << <<"tmax", FRel(q.tmax, m, FDec(1, -4), FDec(1, -4))>>,
     <<"tave", FRel(q.tave, FMeanOf(V), FDec(1, -4), FDec(1, -4))>>,
     <<"t-position", q.kt + 1 \in DOMAIN V /\ FRel(V[q.kt + 1], m, FDec(2, -4), FDec(2, -4))>> >>))
Law(r, p, x) ==
  IF r.op.t \notin {"Rotate", "Reflect", "Turn", "Wrap", "Reverse"} \/ Len(x.a) < 4 THEN <<>>
  ELSE LET q == r.o n == Len(x.a) pp == Parts(x.a) D == RDiff(pp) m == FMaxOf(D) IN
  << <<"law-r", FNear(q.rmax, p.rmax, FDec(1, -6)) /\ FNear(q.rave, p.rave, FDec(1, -6))>>,
     <<"law-t", ~SegClear(pp) \/ (FRel(q.tmax, p.tmax, FDec(1, -5), FDec(1, -5)) /\ FRel(q.tave, p.tave, FDec(1, -5), FDec(1, -5)))>>,
     <<"law-position", (\E k \in 1..n : k # q.kr + 1 /\ FNear(D[k], m, FDec(1, -4))) \/ q.kr = IF r.op.t = "Reverse" THEN n - p.kr - 2 ELSE p.kr>> >>
Init == l = 1 /\ d = <<>> /\ o = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E r \in {Trace[l]} : \E x \in {IF r.op.t = "New" THEN r.data ELSE Apply(r.op, d)} :
           /\ d' = x
           /\ o' = r.o
           /\ \E cl \in {<< <<"data", x = r.data>> >> \o Def(r, x) \o (IF r.op.t = "New" THEN <<>> ELSE Law(r, o, x))} : Report(l, cl)
Spec == Init /\ [][Next]_vars
Accepted == AllConsumed
=============================================================================
