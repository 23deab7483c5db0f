------------------------------ MODULE Trace_KMeans ------------------------------
(* Recorded k-means clusterings (C19): the iteration, cut off after 0, 1, .. steps. *)
EXTENDS Cluster, TraceBase
VARIABLES l, d, o
vars == <<l, d, o>>
CenTol == 40
\* label of every observation names a nearest of the centres c
Labelled(a, lab, c, tol) == Len(lab) = Len(a) /\ \A i \in DOMAIN a : lab[i] + 1 \in DOMAIN c /\ ADist(c[lab[i] + 1], a[i]) <= Nearest(c, a[i]) + tol
\* centres c2 are the means of the observations labelled lab; a centre without mean stays
Centred(a, lab, c, c2, tol) ==
  /\ Len(c2) = Len(c)
  /\ \A k \in DOMAIN c : LET M == Members([i \in DOMAIN lab |-> lab[i] + 1], k) IN
       IF M = <<>> THEN ANear(c2[k], c[k], 2)
       ELSE LET u == MeanOf(a, M) IN MTol(u.r) > 100000 \/ ANear(c2[k], u.m, MTol(u.r) + tol)
Inertia(metric, a, lab, c) == FoldLeft(LAMBDA s, i : FAdd(s, FDist(metric, ADist(a[i], c[lab[i] + 1]))), FZero, [i \in DOMAIN a |-> i])
Shift(c, c2) == FoldLeft(LAMBDA s, k : s + ADist(c[k], c2[k]), 0, [k \in DOMAIN c |-> k])
Untouched(a, lab, c) == \A i \in DOMAIN a : \A k \in DOMAIN c : k = lab[i] + 1 \/ ADist(c[k], a[i]) > ADist(c[lab[i] + 1], a[i]) + 500
Defined(a, lab, c) == \A k \in DOMAIN c : LET M == Members([i \in DOMAIN lab |-> lab[i] + 1], k) IN M = <<>> \/ FLt(FDec(1, -3), MeanOf(a, M).r)
\* no ties on the way, and the iteration came to rest within the recorded steps
Good(r, x) == LET s == r.o.steps m == Len(s) IN Shift(s[m - 1].cen, s[m].cen) = 0 /\ \A j \in 2..m : Untouched(x.a, s[j].lab, s[j - 1].cen) /\ Defined(x.a, s[j].lab, s[j].cen)
Def(r, x) ==
  LET q == r.o n == Len(x.a) IN
  << <<"no-exception", r.exc = <<>> >>, <<"refuses", q.bad = 0>>, <<"centres-defined", \A k \in DOMAIN q.cen : q.cen[k] # ANaN>>, <<"repeatable", q.rep = 1>>, <<"units", q.unit = 1>>,
     <<"predict", \A i \in DOMAIN q.new : Labelled(<<q.new[i]>>, <<q.pred[i]>>, q.cen, 4)>> >> \o
  (IF n < r.k THEN << <<"one-each", q.lab = [i \in 1..n |-> i - 1] /\ Len(q.cen) = n /\ (\A i \in 1..n : ANear(q.cen[i], x.a[i], 1)) /\ FNear(q.inertia, FZero, FDec(1, -6))>> >>
   ELSE
   LET s == q.steps m == Len(s) IN
   << <<"number-of-centres", Len(q.cen) = r.k /\ \A i \in 1..n : q.lab[i] \in 0..(r.k - 1)>>,
      <<"starts-at-observations", \A k \in DOMAIN s[1].cen : \E i \in 1..n : ANear(s[1].cen[k], x.a[i], 1)>>,
      <<"assignment-step", \A j \in 2..m : Shift(s[j - 1].cen, s[j].cen) = 0 \/ Labelled(x.a, s[j].lab, s[j - 1].cen, 4)>>,
      <<"update-step", \A j \in 2..m : Shift(s[j - 1].cen, s[j].cen) = 0 \/ Centred(x.a, s[j].lab, s[j - 1].cen, s[j].cen, 0)>>,
      <<"nobody-wants-to-move", Labelled(x.a, q.lab, q.cen, 150)>>,
      <<"centres-are-means", Centred(x.a, q.lab, q.cen, q.cen, 4)>>,
      <<"units-same-labels", ~Good(r, x) \/ q.same = 1>>,
      <<"inertia", FNear(q.inertia, Inertia(r.metric, x.a, q.lab, q.cen), FMul(FDec(2, -7), FInt(n + 2)))>>,
      <<"descends", \A j \in 2..m : FLe(Spread(x.a, s[j].cen), FAdd(Spread(x.a, s[j - 1].cen), FDec(1, -5)))>> >>)
Moves(op, v) == IF op.t = "Rotate" THEN AWrap(v + op.x) ELSE IF op.t = "Reflect" THEN AWrap(-v) ELSE v
Law(r, p, x) ==
  IF r.op.t \notin {"Rotate", "Reflect", "Turn", "Wrap"} \/ Len(x.a) < r.k THEN <<>>
  ELSE IF ~Good(r, x) THEN <<>> ELSE
       << <<"law-labels", r.o.lab = p.lab>>,
          <<"law-centres", \A k \in DOMAIN p.cen : ANear(r.o.cen[k], Moves(r.op, p.cen[k]), 60)>>,
          <<"law-inertia", FNear(r.o.inertia, p.inertia, FDec(1, -5))>> >>
Init == l = 1 /\ d = <<>> /\ o = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E r \in {Trace[l]} : \E x \in {IF r.op.t = "New" THEN r.data ELSE Apply(r.op, d)} :
           /\ d' = x
           /\ o' = r.o
           /\ \E cl \in {<< <<"data", x = r.data>> >> \o Def(r, x) \o (IF r.op.t = "New" THEN <<>> ELSE Law(r, o, x))} : Report(l, cl)
Spec == Init /\ [][Next]_vars
Accepted == AllConsumed
=============================================================================
