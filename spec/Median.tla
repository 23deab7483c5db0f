------------------------------- MODULE Median -------------------------------
(***************************************************************************)
(* Circular medians.  A median direction of ungrouped data is an           *)
(* observation with least mean angular deviation ("deviation"), or one     *)
(* whose diameter splits the other observations most evenly ("count");     *)
(* several such observations are averaged.  Of grouped data it is the      *)
(* interpolated end of the diameter that halves the frequencies.           *)
(* The implementation compares mean deviations rounded to 1e-5 rad, so its *)
(* candidate set lies between the exact minimisers (MustBe) and the        *)
(* observations within that rounding (MayBe).                              *)
(***************************************************************************)
EXTENDS Descr

\* exact sum of angular distances to direction c, in two limbs
DevSum(a, c) ==
  LET D == TLCEval([j \in DOMAIN a |-> ADist(a[j], c)])
      hi == ISum([j \in DOMAIN a |-> D[j] \div 1000000])
      lo == ISum([j \in DOMAIN a |-> D[j] % 1000000])
  IN <<hi + lo \div 1000000, lo % 1000000>>
LimbLt(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
LimbF(x) == FAdd(FNorm(x[1], 6), FNorm(x[2], 0))
\* mean angular deviation of the sample from c, in radians
MeanDev(a, c) == FMul(FRadPer, FDiv(LimbF(DevSum(a, c)), FInt(Len(a))))

Devs(a) == TLCEval([i \in DOMAIN a |-> DevSum(a, a[i])])
MinLimb(D) == D[CHOOSE i \in DOMAIN D : \A j \in DOMAIN D : ~LimbLt(D[j], D[i])]
MustBe(a, D) == LET m == MinLimb(D) IN {i \in DOMAIN a : D[i] = m}
MayBe(a, D) == LET m == FAdd(LimbF(MinLimb(D)), FMul(FInt(Len(a)), FInt(603))) IN {i \in DOMAIN a : FLe(LimbF(D[i]), m)}

\* imbalance of the diameter through a[i], times 2
Imbalance(a, i) ==
  LET R == Cardinality({j \in DOMAIN a : ADist(a[j], a[i]) \notin {0, HalfT} /\ ((a[j] % T) - (a[i] % T)) % T < HalfT})
      E == Cardinality({j \in DOMAIN a : ADist(a[j], a[i]) \in {0, HalfT}})
      n == Len(a)
      x == (2 * R + E) - (2 * n - 2 * R - E) IN IF x < 0 THEN -x ELSE x
CountBest(a) == LET I == TLCEval([i \in DOMAIN a |-> Imbalance(a, i)]) IN
                {i \in DOMAIN a : \A j \in DOMAIN a : I[i] <= I[j]}
\* no pair so close to coincidence or opposition that rounding could matter
Clear(a) == \A i, j \in DOMAIN a : i < j => LET x == ADist(a[i], a[j]) IN x = 0 \/ x = HalfT \/ (x > 1300 /\ x < HalfT - 1300)

\* average of a sequence of directions; ANaN when they cancel
AvgDir(s) ==
  LET x == FSum8([i \in DOMAIN s |-> Cos8(s[i])]) y == FSum8([i \in DOMAIN s |-> Sin8(s[i])]) IN
  IF FLt(FHyp(x, y), FMul(FDec(5, -7), FInt(Len(s)))) THEN ANaN ELSE AAtan2(y, x)

\* grouped: twice the frequency to the left of the diameter starting at the
\* upper end of bin i (bins i+1 .. i+m/2 lie to its right)
BinAt(i, m) == ((i - 1) % m) + 1
LeftTwice(d, i) ==
  LET m == Len(d.w)  h == m \div 2
      right == 2 * ISum([k \in 1..h |-> d.w[BinAt(i + k, m)]]) + (IF m % 2 = 1 THEN d.w[BinAt(i + h + 1, m)] ELSE 0)
  IN 2 * Size(d) - right
\* bins across which the left frequency climbs through one half
Crossing(d) ==
  LET m == Len(d.w)  L == TLCEval([i \in 1..m |-> LeftTwice(d, i)]) IN
  {i \in 1..m : L[i] <= Size(d) /\ Size(d) <= L[BinAt(i + 1, m)] /\ L[i] # L[BinAt(i + 1, m)]}
GroupedMedian(d, i) ==
  LET m == Len(d.w)  bw == d.a[2] - d.a[1]
      lo == LeftTwice(d, i)  hi == LeftTwice(d, BinAt(i + 1, m)) IN
  AWrap(d.a[i] + bw \div 2 + FRound(FDiv(FMul(FInt(bw), FInt(Size(d) - lo)), FInt(hi - lo))))
=============================================================================
