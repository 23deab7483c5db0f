---------------------------- MODULE Trace_Median ----------------------------
(* Recorded circular medians (C03) against Median. *)
EXTENDS Median, TraceBase
VARIABLES l, d, o
vars == <<l, d, o>>

DirsOf(a, I) == {AWrap(a[i]) : i \in I}
InDirs(x, S) == \E y \in S : ADist(x, y) <= 2
\* the average that the implementation must report for its own candidates
AvgOk(m, cand) ==
  LET e == AvgDir(cand) IN
  IF e = ANaN THEN TRUE ELSE ANear(m, e, 40)

Def(r, x) ==
  IF r.kind = "grouped" THEN
    LET C == Crossing(x)
        cons == \A i \in DOMAIN x.w : x.w[i] = x.w[1] IN
    << <<"grouped-no-exception", r.exc = <<>> >>,
       <<"grouped-median", (~cons /\ Cardinality(C) = 1) => ANear(r.o.med, GroupedMedian(x, CHOOSE i \in C : TRUE), 3)>> >>
  ELSE
  LET q == r.o
      a == x.a
      n == Len(a)
      D == Devs(a)
      must == MustBe(a, D)
      may == MayBe(a, D)
      same == Cardinality(DirsOf(a, 1..n)) = 1
      cb == CountBest(a)
      rawtie == \E i, j \in DOMAIN a : a[i] # a[j] /\ AWrap(a[i]) = AWrap(a[j])
      nanall == q.cand = <<ANaN>>
  IN <<
    <<"no-exception", r.exc = <<>> >>,
    <<"coincident-sample", same => ANear(q.med, a[1], 2) /\ ANear(q.medc, a[1], 2) /\ ANear(q.medu, a[1], 2)>>,
    \* deviation
    <<"median-undefined-only-if-all-tie", (~same /\ nanall) => Cardinality(may) = n>>,
    <<"median-undefined-if-all-tie", (~same /\ Cardinality(must) = n) => nanall /\ q.med = ANaN>>,
    <<"candidates-minimise", (~same /\ ~nanall) =>
        \A i \in DOMAIN q.cand : q.cand[i] # ANaN /\ InDirs(q.cand[i], DirsOf(a, may))>>,
    <<"minimisers-are-candidates", (~same /\ ~nanall) =>
        \A i \in must : \E k \in DOMAIN q.cand : ADist(q.cand[k], a[i]) <= 2>>,
    <<"candidates-counted-once-each", (~same /\ ~nanall) => Len(q.cand) <= Cardinality(may) /\ Len(q.cand) >= Cardinality(must)>>,
    <<"median-averages-candidates", (~same /\ ~nanall) => AvgOk(q.med, q.cand)>>,
    <<"median-averages-unique-candidates", (~same /\ ~nanall /\ ~rawtie) => AvgOk(q.medu, SetToSeq({q.cand[i] : i \in DOMAIN q.cand}))>>,
    <<"median-wrapped", \A v \in {q.med, q.medu, q.medc} : v = ANaN \/ AIsWrapped(v)>>,
    <<"weights-of-one", q.med1 = 1>>,
    \* count
    <<"count-undefined-iff-all-tie", (~same /\ Clear(a)) => ((q.candc = <<ANaN>>) = (Cardinality(cb) = n))>>,
    <<"count-candidates", (~same /\ Clear(a) /\ Cardinality(cb) # n) =>
        /\ Len(q.candc) = Cardinality(cb)
        /\ \A i \in DOMAIN q.candc : InDirs(q.candc[i], DirsOf(a, cb))
        /\ \A i \in cb : \E k \in DOMAIN q.candc : ADist(q.candc[k], a[i]) <= 2>>,
    <<"count-averages-candidates", (~same /\ q.candc # <<ANaN>>) => AvgOk(q.medc, q.candc)>>,
    <<"none-is-undefined", (~same) => q.medn = 1>>,
    <<"unknown-method-refused", (~same) => q.bad = 1>> >>

\* the median of grouped data turns and mirrors with the bins
GroupLaw(r) ==
  IF r.kind # "grouped" THEN <<>>
  ELSE LET x == r.data C == Crossing(x) cons == \A i \in DOMAIN x.w : x.w[i] = x.w[1] IN
  IF cons \/ Cardinality(C) # 1 THEN <<>>
  ELSE << <<"grouped-law-rotate", ANear(r.o.medrot, AWrap(r.o.med + r.k * (x.a[2] - x.a[1])), 3)>>,
          <<"grouped-law-scale", ANear(r.o.medx3, r.o.med, 3)>>,
          <<"grouped-law-offset", ANear(r.o.medoff, AWrap(r.o.med + r.off), 3)>> >>

Init == l = 1 /\ d = <<>> /\ o = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E r \in {Trace[l]} : \E x \in {IF r.op.t = "New" THEN r.data ELSE Apply(r.op, d)} :
           /\ d' = x
           /\ o' = r.o
           /\ \E cl \in {<< <<"data", x = r.data>> >> \o Def(r, x) \o GroupLaw(r)} : Report(l, cl)
Spec == Init /\ [][Next]_vars
Accepted == AllConsumed
=============================================================================
