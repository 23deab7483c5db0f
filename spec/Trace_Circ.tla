------------------------------ MODULE Trace_Circ ------------------------------
(* Recorded data objects against Circ, Descr and Unif (C07, C08).             *)
EXTENDS Circ, Unif, TraceBase
VARIABLES l, d, o
vars == <<l, d, o>>
Tol == FDec(2, -6)
DirOk(m, s) == FLt(s.r1, FDec(1, -7)) \/ (m # ANaN /\ FNear(FMul(s.r1, FCos(m)), s.c1, Tol) /\ FNear(FMul(s.r1, FSin(m)), s.s1, Tol))
\* value and the stand-alone result it has to equal
Same(v) == \A i \in DOMAIN v : FSame(v[i][1], v[i][2], FDec(1, -9))
Text(v) == \A i \in DOMAIN v : FClose(v[i][1], v[i][2], FMul(FDec(51, -4), FMax(FOne, v[i][3])))

Def(r, x) ==
  LET q == r.o c == r.c IN
  << <<"no-exception", r.exc = <<>> >> >> \o
  (IF r.exc # <<>> THEN <<>> ELSE
   LET y == TLCEval(Source(c, x)) n == Size(x)
       z == [a |-> q.alpha, w |-> q.w]
       good == Len(q.alpha) = Len(q.w)
       fit == IF c.m = 0 THEN good /\ Len(q.alpha) = Len(y.a) /\ (\A i \in DOMAIN y.a : ANear(q.alpha[i], y.a[i], 3)) /\ q.w = y.w
              ELSE good /\ Len(q.alpha) = c.m /\ (\A k \in 1..c.m : ANear(q.alpha[k], Centre(c, k), 2)) /\ IsBinning(c, y, q.w)
       b == IF c.m > 0 THEN T \div c.m ELSE IF r.kind = "grouped" THEN r.width ELSE 0
   IN << <<"directions-and-frequencies", fit>>, <<"size", q.n = n>>,
         <<"angles-as-given", c.ax = 0 \/ (Len(q.raw) = Len(x.a) /\ \A i \in DOMAIN x.a : ANear(q.raw[i], AWrap(x.a[i]), 3))>>, <<"grouped", q.grouped = (IF c.m > 0 \/ r.w = 1 THEN 1 ELSE 0)>>,
         <<"bin-width", r.odd = 1 \/ ANear(q.bin, b, 4)>>,
         <<"bin-bounds", r.odd = 1 \/ b = 0 \/ (Len(q.lb) = Len(q.alpha) /\ Len(q.ub) = Len(q.alpha) /\ \A i \in DOMAIN q.alpha :
              ANear(q.lb[i], q.alpha[i] - b \div 2, 4) /\ ANear(q.ub[i], q.alpha[i] + b \div 2, 4))>>,
         <<"arguments-untouched", q.kept = 1>>, <<"repeatable", q.same = 1>>, <<"unit", q.unit = 1>> >> \o
      (IF ~fit \/ q.n # n THEN <<>> ELSE
       LET s == TLCEval(Summary(z)) g == GroupedR(s.r1, q.bin) p == RayleighP(n, s.r1) IN
       << <<"mean", IF c.ax = 1 THEN (q.mean = ANaN \/ (q.mean >= 0 /\ q.mean <= HalfT + 1)) /\ DirOk(IF q.mean = ANaN THEN ANaN ELSE AMul(q.mean, 2), s)
                    ELSE DirOk(q.mean, s) /\ (q.mean = ANaN \/ (q.mean >= 0 /\ q.mean <= T))>>,
          <<"resultant", FNear(q.r, s.r1, Tol) /\ FRel(q.R, FMul(FInt(n), s.r1), FDec(1, -5), FMul(FInt(n), FDec(2, -6)))>>,
          <<"concentration", FLt(s.r1, FDec(999, -3)) => FRel(q.kappa, KappaCorrected(q.r, n), FDec(1, -4), FDec(1, -5))>>,
          <<"deviation", FLt(g, FOne) => FNear(FSq(q.s), FMul(FTwo, Variance(g)), FDec(8, -6))>>,
          <<"standard-deviation", FLt(FDec(2, -2), s.r1) /\ FLt(g, FDec(999, -3)) => FNear(FSq(q.s0), FMul(FInt(-2), FLn(g)), FDec(2, -4))>>,
          <<"skewness", FLt(FDec(1, -2), s.r1) /\ FLt(s.r1, FDec(99, -2)) => FRel(q.skew, Skewness(s), FDec(5, -4), FDec(1, -3))>>,
          <<"kurtosis", FLt(FDec(1, -2), s.r1) /\ FLt(s.r1, FDec(99, -2)) => FRel(q.kurt, Kurtosis(s), FDec(5, -4), FDec(1, -2))>>,
          <<"rayleigh", FRel(q.z, RayleighZ(n, s.r1), FDec(1, -4), FMul(FInt(n), FDec(4, -6))) /\ FNear(q.p, p, FDec(2, -5))>>,
          <<"interval-method", FClose(p, FDec(5, -2), FDec(1, -4)) \/ q.how = (IF r.ci = "default" THEN IntervalMethod(n, p) ELSE r.ci)>>,
          <<"interval-undefined", (q.how = "none" /\ r.ci = "default") => FIsNaN(q.lo) /\ FIsNaN(q.hi)>>,
          <<"equals-the-functions", Same(q.alone)>>,
          <<"summary-text", Text(q.text) /\ q.head = 1>>,
          <<"mixtures", q.mix = 1>> >>)
   \o << <<"refuses", q.bad = 0>> >>)
\* axes recorded at the other end, and relabelled data, give the same object
Law(r, q) ==
  IF r.exc # <<>> THEN <<>>
  ELSE (IF r.c.ax = 0 \/ r.c.m > 0 THEN <<>> ELSE
        << <<"either-end", FNear(r.o.flip[1], r.o.r, FDec(1, -8)) /\ FNear(r.o.flip[2], r.o.p, FDec(1, -7))
              /\ (FLt(FDec(1, -3), r.o.r) => ASame(AMul(r.o.flipm, 2), AMul(r.o.mean, 2), 5))>> >>) \o
       (IF r.op.t \notin Relabel \/ r.c # q.c \/ r.c.m > 0 \/ ~q.ok THEN <<>>
        ELSE << <<"law-r", FNear(q.o.r, r.o.r, FDec(1, -7))>>,
                <<"law-mean", FLt(FDec(1, -3), r.o.r) => ANear(AMul(q.o.mean, r.c.ax + 1), AMul(r.o.mean, r.c.ax + 1), 5)>>,
                <<"law-p", FNear(q.o.p, r.o.p, FDec(1, -7))>> >>)
Init == l = 1 /\ d = <<>> /\ o = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E r \in {Trace[l]} : \E x \in {IF r.op.t = "New" THEN r.data ELSE Apply(r.op, d)} :
           /\ d' = x
           /\ o' = [o |-> r.o, c |-> r.c, ok |-> r.exc = <<>>]
           /\ \E cl \in {<< <<"data", x = r.data>> >> \o Def(r, x) \o (IF r.op.t = "New" THEN Law(r, [c |-> <<>>]) ELSE Law(r, o))} : Report(l, cl)
Spec == Init /\ [][Next]_vars
Accepted == AllConsumed
=============================================================================
