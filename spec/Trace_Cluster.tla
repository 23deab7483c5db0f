----------------------------- MODULE Trace_Cluster -----------------------------
(* Recorded agglomerative clusterings (C18). *)
EXTENDS Cluster, TraceBase
VARIABLES l, d, o
vars == <<l, d, o>>
Row(m, i) == [x |-> m.x[i], y |-> m.y[i], d |-> m.d[i], n |-> m.n[i]]
\* follow the merges from partition P0; st = [P, ok, near, dist, clear]
StepOf(a, metric, st, m) ==
  IF ~st.ok THEN st
  ELSE IF ~({m.x, m.y} \subseteq DOMAIN st.P /\ m.x # m.y) THEN [st EXCEPT !.ok = FALSE]
  ELSE LET C == Centres(a, st.P) Q == PairsOf(st.P) g == MinGap(C, Q)
           tol == MTol(CHOOSE r \in {C[k].r : k \in DOMAIN C} : \A k \in DOMAIN C : FLe(r, C[k].r))
           e == IF C[m.x].m = ANaN \/ C[m.y].m = ANaN THEN T ELSE ADist(C[m.x].m, C[m.y].m)
           second == Cardinality({p \in Q : Gap(C, p) <= g + 2 * tol + 50}) > 1
           P2 == Join(st.P, m.x, m.y, NextNo(st.P))
           rad == FMul(FInt(2 * tol), FDec(2, -8))
       IN TLCEval([P |-> P2, ok |-> TRUE,
           near |-> st.near /\ (tol > 100000 \/ e <= g + 2 * tol),
           dist |-> st.dist /\ (tol > 100000 \/ e = T \/ FNear(m.d, FDist(metric, e), FAdd(rad, FDec(1, -7)))),
           size |-> st.size /\ m.n = Len(P2[NextNo(st.P)]),
           clear |-> st.clear /\ ~second /\ tol < 1000 /\ st.P # <<>>])
Follow(a, metric, P0, m) == FoldLeft(LAMBDA st, i : StepOf(a, metric, st, Row(m, i)),
  [P |-> P0, ok |-> TRUE, near |-> TRUE, dist |-> TRUE, size |-> TRUE, clear |-> TRUE], [i \in DOMAIN m.x |-> i])
NearestLab(c, x, lab) == \* lab names a nearest centre (defined centres only)
  LET S == {ADist(c[k], x) : k \in {j \in DOMAIN c : c[j] # ANaN}} IN S = {} \/ (c[lab + 1] # ANaN /\ \A v \in S : ADist(c[lab + 1], x) <= v + 4)
\* the starting partition: single observations, or the k-means partition
Start(r, x) == IF r.ninit = 0 \/ r.ninit >= Len(x.a) THEN Singletons(Len(x.a)) ELSE ByLabel(r.o.init)
InitOk(r, x) ==  \* k-means labels of the start: an arc-wise nearest-centre partition
  r.ninit = 0 \/ r.ninit >= Len(x.a) \/
  LET P == ByLabel(r.o.init) C == Centres(x.a, P) ks == DOMAIN P IN
  \E k \in ks : FLt(C[k].r, FDec(1, -3)) \/ \A i \in DOMAIN x.a : \A k2 \in ks : ADist(C[r.o.init[i]].m, x.a[i]) <= ADist(C[k2].m, x.a[i]) + 200
Def(r, x) ==
  LET q == r.o n == Len(x.a) IN
  << <<"no-exception", r.exc = <<>> >>, <<"refuses", q.bad = 0>>,
     <<"repeatable", q.rep = 1>>, <<"units", q.unit = 1>> >> \o
  (IF n <= r.k THEN << <<"one-each", q.lab = [i \in 1..n |-> i - 1] /\ q.m.x = <<>> /\ Len(q.cen) = n /\ \A i \in 1..n : ANear(q.cen[i], x.a[i], 1)>>,
                       <<"predict", \A i \in DOMAIN q.new : NearestLab(q.cen, q.new[i], q.pred[i])>> >>
   ELSE
   LET P0 == Start(r, x) f == Follow(x.a, r.metric, P0, q.m)
       PL == ByLabel(q.lab) kk == Len(q.cen)
       S == [i \in 1..n |-> Sil1(r.metric, x.a, q.lab, PL, i)]
       sum == FoldLeft(LAMBDA s, i : FAdd(s, S[i].s), FZero, [i \in 1..n |-> i])
        known == r.ninit = 0 \/ r.ninit >= n \/ Cardinality(DOMAIN P0) = r.ninit   \* empty k-means clusters leave gaps in the numbers
   IN << <<"initial-partition", IsPartition(P0, n) /\ (r.ninit = 0 \/ r.ninit >= n \/ Cardinality(DOMAIN P0) <= r.ninit) /\ InitOk(r, x)>>,
         <<"merge-history", ~known \/ f.ok>>,
         <<"merges-nearest", ~known \/ ~f.ok \/ f.near>>,
         <<"merge-distance", ~known \/ ~f.ok \/ f.dist>>,
         <<"merge-size", ~known \/ ~f.ok \/ f.size>>,
         <<"requested-number", kk = (IF r.k < Cardinality(DOMAIN P0) THEN r.k ELSE Cardinality(DOMAIN P0))>>,
         <<"labels-are-the-final-partition", ~known \/ ~f.ok \/ (Blocks(PL) = Blocks(f.P) /\ DOMAIN PL = 0..(kk - 1))>>,
         <<"centres", \A k \in DOMAIN PL : LET u == MeanOf(x.a, PL[k]) IN k + 1 \in DOMAIN q.cen /\ (MTol(u.r) > 100000 \/ ANear(q.cen[k + 1], u.m, MTol(u.r)))>>,
         <<"resultants", \A k \in DOMAIN PL : k + 1 \in DOMAIN q.r /\ FNear(q.r[k + 1], MeanOf(x.a, PL[k]).r, FDec(2, -7))>>,
         <<"predict", Len(q.pred) = Len(q.new) /\ \A i \in DOMAIN q.new : NearestLab(q.cen, q.new[i], q.pred[i])>>,
         <<"silhouette", kk < 2 \/ (\E i \in 1..n : FLt(S[i].m, FDec(1, -6))) \/ FNear(q.sil, FDiv(sum, FInt(n)), FDec(1, -5))>> >>)

Place(op, i, n) == CASE op.t = "Reverse" -> n + 1 - i [] op.t = "Swap" -> (IF i = op.i THEN op.j ELSE IF i = op.j THEN op.i ELSE i) [] OTHER -> i
Law(r, p, x) ==
  IF r.op.t \notin {"Rotate", "Reflect", "Turn", "Wrap", "Swap", "Reverse"} \/ r.ninit # 0 \/ Len(x.a) <= r.k THEN <<>>
  ELSE LET n == Len(x.a) f == Follow(x.a, r.metric, Singletons(n), r.o.m) IN
  IF ~f.clear THEN <<>> ELSE
     << <<"law-partition", \A i, j \in 1..n : (r.o.lab[i] = r.o.lab[j]) = (p.lab[Place(r.op, i, n)] = p.lab[Place(r.op, j, n)])>>,
        <<"law-silhouette", r.k < 2 \/ FNear(r.o.sil, p.sil, FDec(1, -6))>> >>
Init == l = 1 /\ d = <<>> /\ o = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E r \in {Trace[l]} : \E x \in {IF r.op.t = "New" THEN r.data ELSE Apply(r.op, d)} :
           /\ d' = x
           /\ o' = r.o
           /\ \E cl \in {<< <<"data", x = r.data>> >> \o Def(r, x) \o (IF r.op.t = "New" THEN <<>> ELSE Law(r, o, x))} : Report(l, cl)
Spec == Init /\ [][Next]_vars
Accepted == AllConsumed
=============================================================================
