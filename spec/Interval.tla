------------------------------ MODULE Interval ------------------------------
(***************************************************************************)
(* Interval estimates of a sample: confidence intervals of the mean and of *)
(* the median direction, highest density arcs, quantiles, range.           *)
(***************************************************************************)
EXTENDS Median, Special

Levels == {500, 750, 800, 900, 950, 980, 990}          \* per mille
ZOf == TLCEval([c \in Levels |-> NormIsf(FDec(1000 - c, -3 ) )])   \* P(Z > z) = 1 - c
ZTwo == TLCEval([c \in Levels |-> NormIsf(FDiv(FDec(1000 - c, -3), FTwo))])
Chi1(c) == FSq(ZTwo[c])

\* ---- mean direction, Zar (2010) eq. 26.24 / 26.25: square of the sine of the half-width
RMin2(n, c) == FDiv(Chi1(c), FInt(2 * n))               \* least r^2 for which it is defined
ApproxSin2(n, r, c) ==
  LET x == Chi1(c) r2 == FSq(r) IN
  IF ~FLt(FDec(9, -1), r)
  THEN FDiv(FMul(x, FSub(FTwo, r2)), FMul(FSub(FInt(4 * n), x), r2))
  ELSE FDiv(FMul(FMul(FSub(FOne, r), FAdd(FOne, r)), FSub(FExp(FDiv(x, FInt(n))), FOne)), r2)
\* Fisher (1993) 4.4.4b
DispSin2(n, delta, c) == FMul(FDiv(delta, FInt(n)), Chi1(c))

\* ---- order statistics
SortedA(a) == SortSeq([i \in DOMAIN a |-> AWrap(a[i])], <)
Gaps(S) == [i \in DOMAIN S |-> IF i = 1 THEN S[1] + T - S[Len(S)] ELSE S[i] - S[i - 1]]
MaxOf(s) == s[CHOOSE i \in DOMAIN s : \A j \in DOMAIN s : s[j] <= s[i]]
MinOf(s) == s[CHOOSE i \in DOMAIN s : \A j \in DOMAIN s : s[i] <= s[j]]
ArcRange(a) == T - MaxOf(TLCEval(Gaps(SortedA(a))))

\* width of the arc from the i-th observation over k observations
ArcWidth(S, k, i) ==
  LET n == Len(S) j == i + k - 1 IN IF j <= n THEN S[j] - S[i] ELSE S[j - n] + T - S[i]
HdiWidth(S, k) == MinOf(TLCEval([i \in DOMAIN S |-> ArcWidth(S, k, i)]))
HdiCount(n, c) == LET k == (c * n) \div 1000 IN IF k < 1 THEN 1 ELSE k
HdiOk(a, c, lo, hi) ==
  LET S == TLCEval(SortedA(a)) n == Len(a) k == HdiCount(n, c)
      Ks == IF (c * n) % 1000 = 0 /\ k > 1 THEN {k - 1, k} ELSE {k}
      w == LET x == AWrap(hi - lo) IN IF x > T - 4 THEN 0 ELSE x IN
  /\ \E i \in DOMAIN S : ADist(S[i], lo) <= 2
  /\ \E i \in DOMAIN S : ADist(S[i], hi) <= 2
  /\ \E q \in Ks :
       LET m == HdiWidth(S, q)
           e == w - m IN
       /\ (e \in -4..4 \/ m > T - 8)
       /\ Cardinality({i \in DOMAIN S : AInArcTol(S[i], lo, hi, 2)}) >= q

\* quantiles of the signed offsets from direction m, linear interpolation of order statistics
Offsets(a, m) == SortSeq([i \in DOMAIN a |-> ASigned(AWrap(a[i]) - m)], <)
Quant(S, p) ==
  LET n == Len(S) h == (n - 1) * p f == h \div 1000 g == h % 1000 IN
  IF g = 0 THEN S[f + 1]
  ELSE LET x == S[f + 2] - S[f + 1] IN S[f + 1] + (x \div 1000) * g + ((x % 1000) * g) \div 1000
QuantMid(S, p) ==
  LET n == Len(S) h == (n - 1) * p f == h \div 1000 g == h % 1000 IN
  IF g = 0 THEN S[f + 1] ELSE S[f + 1] + (S[f + 2] - S[f + 1]) \div 2

\* ---- median direction: Fisher (1993), 4.4.2 and table A.6: <<first, last, level>>
MedTable == << <<0, 0, 0>>, <<0, 0, 0>>, <<1, 3, 750>>, <<1, 4, 875>>, <<1, 5, 937>>, <<1, 6, 970>>, <<1, 7, 984>>, <<1, 8, 992>>,
               <<1, 9, 996>>, <<2, 9, 978>>, <<2, 10, 990>>, <<3, 10, 962>>, <<3, 11, 978>>, <<4, 11, 937>>, <<3, 13, 965>> >>
FromOpposite(a, m) == LET S == SortSeq([i \in DOMAIN a |-> AWrap(AWrap(a[i]) - m + HalfT)], <) IN [i \in DOMAIN S |-> AWrap(S[i] + m + HalfT)]
MedHalf(n, c) == FMul(FHalf, FMul(FSqrt(FInt(n)), ZTwo[c]))
MedOffset(n, c) == 1 + (FRound(FMul(FInt(1000), MedHalf(n, c))) \div 1000)
MedOffsetClear(n, c) == LET q == FRound(FMul(FInt(1000), MedHalf(n, c))) % 1000 IN q > 2 /\ q < 998
\* observations at (within 2) the median, and in order below and above it
AtMed(a, m) == {i \in DOMAIN a : ADist(a[i], m) <= 2}
RECURSIVE IdxSeq(_, _, _)
IdxSeq(I, k, n) == IF k > n THEN <<>> ELSE IF k \in I THEN <<k>> \o IdxSeq(I, k + 1, n) ELSE IdxSeq(I, k + 1, n)
BelowMed(a, m) == LET J == TLCEval(IdxSeq(DOMAIN a \ AtMed(a, m), 1, Len(a)))
                      S == SortSeq([i \in DOMAIN J |-> AWrap(m - AWrap(a[J[i]]))], <) IN [i \in DOMAIN S |-> AWrap(m - S[i])]
AboveMed(a, m) == LET J == TLCEval(IdxSeq(DOMAIN a \ AtMed(a, m), 1, Len(a)))
                      S == SortSeq([i \in DOMAIN J |-> AWrap(AWrap(a[J[i]]) - m)], <) IN
                  [i \in 1..Cardinality(AtMed(a, m)) |-> AWrap(m)] \o [i \in DOMAIN S |-> AWrap(m + S[i])]
MedClear(a, m) == /\ \A i \in DOMAIN a : LET x == ADist(a[i], m) IN x <= 2 \/ x > 1300
                  /\ \A i \in DOMAIN a : ADist(a[i], m) < HalfT - 5
                  /\ ADist(m, 0) > 1300
\* <<lower, upper, level per mille>>, for a defined median m
MedianInterval(a, m, c) ==
  LET n == Len(a) IN
  IF n <= 15
  THEN LET S == TLCEval(FromOpposite(a, m)) r == MedTable[n] IN <<S[r[1]], S[r[2]], r[3]>>
  ELSE LET k == MedOffset(n, c) at == AtMed(a, m) IN
       <<BelowMed(a, m)[k], AboveMed(a, m)[k + (IF at = {} THEN 0 ELSE 1)], c>>
=============================================================================
