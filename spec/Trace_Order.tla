---------------------------- MODULE Trace_Order ----------------------------
(* Recorded order statistics: range, HDI, quantiles, median interval (C06). *)
EXTENDS Interval, TraceBase
VARIABLES l, d, o
vars == <<l, d, o>>

\* r.probs in per mille; q.med the median direction the code works with
Def(r, x) ==
  LET q == r.o a == x.a n == Len(a) m == q.med
      Off == TLCEval(IF m = ANaN THEN <<>> ELSE Offsets(a, m))
      away == m # ANaN /\ \A i \in DOMAIN a : ADist(a[i], m) < HalfT - 5
      iv == TLCEval(IF m = ANaN \/ n < 3 \/ (n > 15 /\ (~MedClear(a, m) \/ ~MedOffsetClear(n, r.ci))) \/ (n <= 15 /\ ~away)
                    THEN <<>> ELSE MedianInterval(a, m, r.ci))
  IN <<
    <<"no-exception", r.exc = <<>> >>,
    <<"range", LET g == ArcRange(a) IN FNear(q.range, FRadOf(g), FDec(1, -6)) \/ (g <= 3 /\ FLe(FAbs(q.range), FDec(1, -6)))>>,
    <<"hdi", \A i \in DOMAIN r.cis : HdiOk(a, r.cis[i], q.hdi[i][1], q.hdi[i][2])>>,
    <<"hdi-wrapped", \A i \in DOMAIN r.cis : \A j \in {1, 2} : q.hdi[i][j] >= 0 /\ q.hdi[i][j] <= T>>,
    <<"hdi-refuses", q.hdib = 1>>,
    <<"quantiles", IF m = ANaN THEN \A i \in DOMAIN r.probs : q.qu[i] = ANaN
                   ELSE away => \A i \in DOMAIN r.probs : ANear(q.qu[i], AWrap(m + Quant(Off, r.probs[i])), 4)>>,
    <<"quantiles-midpoint", (m # ANaN /\ away) => \A i \in DOMAIN r.probs :
        ((n - 1) * r.probs[i]) % 1000 = 0 \/ ANear(q.qm[i], AWrap(m + QuantMid(Off, r.probs[i])), 4)>>,
    <<"quantile-scalar", q.q1 = <<q.qu[1]>> >>,
    <<"quantile-length", Len(q.qu) = Len(r.probs) /\ Len(q.qdef) = 5 /\ Len(q.qm) = Len(r.probs)>>,
    <<"quantile-default", (m # ANaN /\ away) => \A i \in 1..5 : ANear(q.qdef[i], AWrap(m + Quant(Off, (i - 1) * 250)), 4)>>,
    <<"median-interval-undefined", (m = ANaN \/ n < 3) => (q.mlo = ANaN /\ q.mhi = ANaN)>>,
    <<"median-interval", iv # <<>> => ANear(q.mlo, iv[1], 4) /\ ANear(q.mhi, iv[2], 4)>>,
    <<"median-interval-level", (m # ANaN /\ n >= 3) => FNear(q.mci, FDec(IF n <= 15 THEN MedTable[n][3] ELSE r.ci, -3), FDec(1, -6))>>,
    <<"median-interval-given", q.same = 1>>,
    <<"median-interval-refuses", q.bad = 1>> >>

\* directions and widths under an action that keeps or moves the whole sample
Law(r, p) ==
  IF r.op.t \notin {"Turn", "Wrap", "Swap", "Reverse", "Rotate", "Reflect"} THEN <<>>
  ELSE << <<"law-range", FNear(r.o.range, p.range, FDec(1, -6))>> >>

Init == l = 1 /\ d = <<>> /\ o = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E r \in {Trace[l]} : \E x \in {IF r.op.t = "New" THEN r.data ELSE Apply(r.op, d)} :
           /\ d' = x
           /\ o' = r.o
           /\ \E cl \in {<< <<"data", x = r.data>> >> \o Def(r, x) \o (IF r.op.t = "New" THEN <<>> ELSE Law(r, o))} : Report(l, cl)
Spec == Init /\ [][Next]_vars
Accepted == AllConsumed
=============================================================================
