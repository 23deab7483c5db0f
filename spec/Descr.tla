-------------------------------- MODULE Descr --------------------------------
(***************************************************************************)
(* Point estimates of a sample: moments, mean direction, resultant length, *)
(* dispersion, skewness, kurtosis, variances, concentration.               *)
(* Definitions after Mardia (1972), Fisher (1993) and Zar (2010), each a   *)
(* function of the state of Sample.                                        *)
(***************************************************************************)
EXTENDS Sample

\* mean of cos p(a - m) and of sin p(a - m)
CBar(d, p, m) == FDiv(FSum8W([i \in DOMAIN d.a |-> Cos8(AMul(AWrap(d.a[i]) - m, p))], d.w), FInt(Size(d)))
SBar(d, p, m) == FDiv(FSum8W([i \in DOMAIN d.a |-> Sin8(AMul(AWrap(d.a[i]) - m, p))], d.w), FInt(Size(d)))
FHyp(x, y) == FSqrt(FAdd(FSq(x), FSq(y)))
RLen(d, p) == FHyp(CBar(d, p, 0), SBar(d, p, 0))
MDir(d, p) == LET c == CBar(d, p, 0) s == SBar(d, p, 0) IN IF FLt(FHyp(c, s), FDec(5, -8)) THEN ANaN ELSE AAtan2(s, c)

\* everything the clauses need about one sample, computed once
Summary(d) ==
  LET c1 == CBar(d, 1, 0)  s1 == SBar(d, 1, 0)
      c2 == CBar(d, 2, 0)  s2 == SBar(d, 2, 0)
      r1 == FHyp(c1, s1)  r2 == FHyp(c2, s2)
      m1 == IF FLt(r1, FDec(5, -8)) THEN ANaN ELSE AAtan2(s1, c1)
      m2 == IF FLt(r2, FDec(5, -8)) THEN ANaN ELSE AAtan2(s2, c2)
  IN [n |-> Size(d), c1 |-> c1, s1 |-> s1, c2 |-> c2, s2 |-> s2, r1 |-> r1, r2 |-> r2, m1 |-> m1, m2 |-> m2]

Dispersion(s) == FDiv(FSub(FOne, s.r2), FMul(FTwo, FSq(s.r1)))
Rel2(s) == IF s.m2 = ANaN \/ s.m1 = ANaN THEN 0 ELSE AWrap(s.m2 - 2 * s.m1)
Skewness(s) ==
  LET q == FSub(FOne, s.r1) IN FDiv(FMul(s.r2, FSin(Rel2(s))), FMul(q, FSqrt(q)))
Kurtosis(s) ==
  LET q == FSub(FOne, s.r1) IN FDiv(FSub(FMul(s.r2, FCos(Rel2(s))), FSq(FSq(s.r1))), FSq(q))

\* correction of the resultant length for grouping into bins of width b (0: none)
GroupedR(r, b) == IF b = 0 THEN r
                  ELSE LET f == FRadOf(b) IN FMul(r, FDiv(f, FMul(FTwo, FSin(b \div 2))))
Variance(r) == FSub(FOne, r)
StdDev(r) == FSqrt(FMul(FInt(-2), FLn(r)))

\* maximum likelihood concentration, Fisher (1993) eq. 4.40 with the small
\* sample correction 4.41 (n = 0: no correction)
KappaHat(r) ==
  IF FLt(r, FDec(53, -2)) THEN FAdd(FMul(FTwo, r), FAdd(FPowI(r, 3), FDiv(FMul(FInt(5), FPowI(r, 5)), FInt(6))))
  ELSE IF FLt(r, FDec(85, -2)) THEN FAdd(FDec(-4, -1), FAdd(FMul(FDec(139, -2), r), FDiv(FDec(43, -2), FSub(FOne, r))))
  ELSE FDiv(FOne, FAdd(FSub(FPowI(r, 3), FMul(FInt(4), FSq(r))), FMul(FInt(3), r)))
KappaCorrected(r, n) ==
  LET k == KappaHat(r) IN
  IF n = 0 \/ n > 15 \/ ~FLt(r, FDec(7, -1)) \/ k[1] = 0 THEN k
  ELSE IF FLt(k, FTwo) THEN FMax(FSub(k, FDiv(FTwo, FMul(FInt(n), k))), FZero)
  ELSE FDiv(FMul(FPowI(FInt(n - 1), 3), k), FAdd(FPowI(FInt(n), 3), FInt(n)))

(***************************************************************************)
(* What an action on the data does to each statistic.  `o` and `o2` are    *)
(* records of the statistics before and after.                             *)
(***************************************************************************)
\* direction of a mean after `op`
MovedDir(op, m) == IF m = ANaN THEN ANaN
                   ELSE CASE op.t = "Rotate" -> AWrap(m + op.x) [] op.t = "Reflect" -> AWrap(-m) [] OTHER -> m
KeepsShape(op) == op.t \in Relabel \cup {"Rotate", "Reflect", "Scale"}
=============================================================================
