------------------------------ MODULE Direction ------------------------------
(***************************************************************************)
(* Tests of a sample against a specified direction.                        *)
(***************************************************************************)
EXTENDS Interval

\* ---- V test, Zar (2010) eq. 27.5, 27.6
VStat(s, ang) == IF s.m1 = ANaN THEN FZero ELSE FMul(FMul(FInt(s.n), s.r1), FCos(AWrap(s.m1 - ang)))
VU(n, V) == FMul(V, FSqrt(FDiv(FTwo, FInt(n))))

\* ---- sign tests: two-sided binomial probability of c out of n at one half
BinomTwoHalf(n, c) ==
  LET k == IF 2 * c > n THEN n - c ELSE c
      p0 == FExp(FNeg(FMul(FInt(n), FDec(69314718, -8)))) IN
  IF 2 * k = n THEN FOne ELSE FMin(FOne, FMul(FTwo, BinomLe(n, k, p0)))

\* Batschelet: observations outside the half circle centred on the direction
Outside(a, ang) == Cardinality({i \in DOMAIN a : ADist(a[i], ang) >= 90000000})
OnEdge(a, ang) == \E i \in DOMAIN a : IAbs(ADist(a[i], ang) - 90000000) <= 3
\* median: observations on either side of the direction
Before(a, ang) == Cardinality({i \in DOMAIN a : ASigned(AWrap(a[i]) - ang) < 0})
After(a, ang) == Cardinality({i \in DOMAIN a : ASigned(AWrap(a[i]) - ang) > 0})
\* (an observation at the direction itself, or opposite to it, is decided by rounding)
OnAxis(a, ang) == \E i \in DOMAIN a : LET x == ADist(a[i], ang) IN x <= 3 \/ x >= HalfT - 3

\* ---- symmetry: Wilcoxon signed ranks of the deviations
SDevs(a, ang) == SelectSeq([i \in DOMAIN a |-> ASigned(AWrap(a[i]) - ang)], LAMBDA x : x # 0)
\* twice the midrank of |D[i]|
Rank2(D) == [i \in DOMAIN D |-> 2 * Cardinality({j \in DOMAIN D : IAbs(D[j]) < IAbs(D[i])}) + Cardinality({j \in DOMAIN D : IAbs(D[j]) = IAbs(D[i])}) + 1]
SumPos(D, R) == ISum([i \in DOMAIN D |-> IF D[i] > 0 THEN R[i] ELSE 0])
HasTies(D) == \E i, j \in DOMAIN D : i < j /\ IAbs(D[i]) = IAbs(D[j])
\* number of sign patterns by (doubled) sum of positive ranks: index s + 1
Patterns(R, P0) == FoldLeft(LAMBDA P, k : TLCEval([s \in DOMAIN P |-> P[s] + (IF s > k THEN P[s - k] ELSE 0)]), P0, R)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
SignExact(D) ==
  LET R == TLCEval(Rank2(D)) tot == ISum(R) obs == SumPos(D, R)
      m == IF 2 * obs > tot THEN tot - obs ELSE obs
      P == TLCEval(Patterns(R, [s \in 1..(m + 1) |-> IF s = 1 THEN 1 ELSE 0])) IN
  FMin(FOne, FDiv(FMul(FTwo, FInt(ISum(P))), FInt(Pow2(Len(D)))))
\* sum of t^3 - t over groups of ties
TieSum(D) == ISum([i \in DOMAIN D |-> LET t == Cardinality({j \in DOMAIN D : IAbs(D[j]) = IAbs(D[i])}) IN t * t - 1])
SignNormal(D) ==
  LET n == Len(D) R == TLCEval(Rank2(D))
      mn == FDec(25 * n * (n + 1), -2)
      se2 == FDiv(FSub(FInt(n * (n + 1) * (2 * n + 1)), FDiv(FInt(TieSum(D)), FTwo)), FInt(24))
      z == FDiv(FSub(FDiv(FInt(SumPos(D, R)), FTwo), mn), FSqrt(se2)) IN
  NormTwo(z)
SignP(n, D) ==                              \* n: observations including those at the direction
  IF (n > 50 \/ (n > 13 /\ (HasTies(D) \/ Len(D) < n))) THEN SignNormal(D) ELSE SignExact(D)
SignStat(D) == LET R == TLCEval(Rank2(D)) p == SumPos(D, R) q == ISum(R) - p IN FDiv(FInt(IF p < q THEN p ELSE q), FTwo)
=============================================================================
