-------------------------------- MODULE Anova --------------------------------
(***************************************************************************)
(* Parametric comparisons of several samples: each test as numerator and   *)
(* denominator of its statistic, degrees of freedom and tail.              *)
(***************************************************************************)
EXTENDS Groups

\* sums of cosines and sines of one sample
Vec(d) == LET e == [i \in DOMAIN d.a |-> AWrap(d.a[i])] IN
          << FSum8W([i \in DOMAIN e |-> Cos8(e[i])], d.w), FSum8W([i \in DOMAIN e |-> Sin8(e[i])], d.w) >>
VLen(v) == FHyp(v[1], v[2])
VDir(v) == IF FLt(VLen(v), FDec(1, -6)) THEN ANaN ELSE AAtan2(v[2], v[1])
RECURSIVE VSumFrom(_, _)
VSumFrom(V, k) == IF k > Len(V) THEN <<FZero, FZero>> ELSE LET r == VSumFrom(V, k + 1) IN <<FAdd(V[k][1], r[1]), FAdd(V[k][2], r[2])>>
VSum(V) == VSumFrom(V, 1)
\* everything the tests need, computed once
GSum(S) ==
  LET k == Len(S)
      V == TLCEval([q \in 1..k |-> Vec(S[q])])
      n == TLCEval([q \in 1..k |-> Size(S[q])])
      R == TLCEval([q \in 1..k |-> VLen(V[q])])
      A == TLCEval(VSum(V))
      N == ISum(n) IN
  TLCEval([k |-> k, V |-> V, n |-> n, N |-> N, R |-> R, r |-> [q \in 1..k |-> FDiv(R[q], FInt(n[q]))],
           SR |-> FSum(R), RA |-> VLen(A), rA |-> FDiv(VLen(A), FInt(N)), mA |-> VDir(A), m |-> [q \in 1..k |-> VDir(V[q])]])
\* 1/kappa: well conditioned up to total concentration
InvKappa(r) == IF FLt(r, FDec(85, -2)) THEN FDiv(FOne, KappaHat(r)) ELSE FMul(r, FMul(FSub(FOne, r), FSub(FInt(3), r)))
Near_(x, c, tol) == FNear(x, c, tol)
BranchClear(r) == ~FNear(r, FDec(53, -2), FDec(1, -6)) /\ ~FNear(r, FDec(85, -2), FDec(1, -6))

Between(g) == FMax(FZero, FSub(g.SR, g.RA))
Within(g) == FSub(FInt(g.N), g.SR)
Spread(g) == FLt(FMul(FDec(1, -5), FInt(g.N)), Within(g))       \* not concentrated group by group
\* ---- Watson and Williams (Zar 27.8), analysis of variance (Stephens' factor)
StephensK(r) == FAdd(FOne, FMul(FDec(375, -3), InvKappa(r)))
FTop(g, K) == FMul(K, FDiv(Between(g), FInt(g.k - 1)))
FBottom(g) == FDiv(Within(g), FInt(g.N - g.k))
\* statistic f = top / bottom, compared without losing the digits of a small quotient
Ratio(f, top, bottom, scale) == FClose(FMul(f, bottom), top, FMul(FDec(2, -6), FMul(scale, FAdd(FOne, FAbs(f)))))

\* likelihood ratio of equal directions given kappa
LrtStat(g, kap) ==
  LET c == FSum([q \in 1..g.k |-> FDiv(FOne, FInt(g.n[q]))]) IN
  FMul(FSub(FOne, FDiv(FSub(c, FDiv(FOne, FInt(g.N))), FMul(FInt(4), kap))), FMul(FTwo, FMul(kap, Between(g))))

\* ---- Harrison and Kanji: p x q cells in row order
Margin(g, I) == LET v == VSum([j \in DOMAIN I |-> g.V[I[j]]]) n == ISum([j \in DOMAIN I |-> g.n[I[j]]]) IN
                FDiv(FSq(VLen(v)), FInt(n))                     \* R^2 / n of pooled cells
RowI(i, q) == [j \in 1..q |-> (i - 1) * q + j]
ColI(j, p, q) == [i \in 1..p |-> (i - 1) * q + j]
HK(g, p, q) ==
  LET N == FInt(g.N)
      c0 == FDiv(FSq(g.RA), N)
      a == FSum([i \in 1..p |-> Margin(g, RowI(i, q))])
      b == FSum([j \in 1..q |-> Margin(g, ColI(j, p, q))])
      cc == FSum([x \in 1..(p * q) |-> FDiv(FSq(g.R[x]), FInt(g.n[x]))])
  IN TLCEval([ A |-> FSub(a, c0), B |-> FSub(b, c0), I |-> FAdd(FSub(FSub(cc, a), b), c0),
               E |-> FSub(N, cc), E0 |-> FAdd(FSub(FSub(N, a), b), c0), Tt |-> FSub(N, c0) ])
HKBeta(kap) == FDiv(FOne, FSub(FSub(FOne, FDiv(FOne, FMul(FInt(5), kap))), FDiv(FOne, FMul(FInt(10), FSq(kap)))))
HKFactor(kap) == FDiv(FTwo, FSub(FOne, FSq(BesRatio(0, kap))))

\* ---- equal concentrations
Weighted(w, x) == LET s == FSum([i \in DOMAIN w |-> FMul(w[i], FSq(x[i]))]) t == FSum([i \in DOMAIN w |-> FMul(w[i], x[i])]) IN
                  FSub(s, FDiv(FSq(t), FSum(w)))
FAsinh(x) == LET a == FAbs(x) v == FLn(FAdd(a, FSqrt(FAdd(FSq(a), FOne)))) IN IF x[1] < 0 THEN FNeg(v) ELSE v
Regime(r) == IF FLt(r, FDec(45, -2)) THEN "small" ELSE IF FLe(r, FDec(7, -1)) THEN "moderate" ELSE "large"
SinArg(r) == FMul(FMul(FTwo, FSqrt(FDec(375, -3))), r)
EqualKappa(g) ==
  LET k == g.k IN
  CASE Regime(g.rA) = "small" ->
         Weighted([q \in 1..k |-> FDiv(FInt(4 * (g.n[q] - 4)), FInt(3))], [q \in 1..k |-> FRadOf(ASigned(AAsin(SinArg(g.r[q]))))])
    [] Regime(g.rA) = "moderate" ->
         Weighted([q \in 1..k |-> FDiv(FInt(g.n[q] - 3), FDec(798, -3))], [q \in 1..k |-> FAsinh(FDiv(FSub(g.r[q], FDec(1089, -3)), FDec(258, -3)))])
    [] OTHER ->
         LET v == g.N - k
             d == FDiv(FSub(FSum([q \in 1..k |-> FDiv(FOne, FInt(g.n[q] - 1))]), FDiv(FOne, FInt(v))), FInt(3 * (k - 1)))
             s == FSum([q \in 1..k |-> FMul(FInt(g.n[q] - 1), FLn(FDiv(FSub(FInt(g.n[q]), g.R[q]), FInt(g.n[q] - 1))))]) IN
         FDiv(FSub(FMul(FInt(v), FLn(FDiv(Within(g), FInt(v)))), s), FAdd(FOne, d))
EkClear(g) ==
  /\ ~FNear(g.rA, FDec(45, -2), FDec(1, -6)) /\ ~FNear(g.rA, FDec(7, -1), FDec(1, -6))
  /\ Regime(g.rA) = "small" => \A q \in 1..g.k : g.n[q] >= 5 /\ FLt(SinArg(g.r[q]), FDec(999, -3))
  /\ Regime(g.rA) = "moderate" => \A q \in 1..g.k : g.n[q] >= 4
  /\ Regime(g.rA) = "large" => \A q \in 1..g.k : g.n[q] >= 2 /\ FLt(FMul(FDec(1, -3), FInt(g.n[q])), FSub(FInt(g.n[q]), g.R[q]))

\* ---- common median: observations before the median of the pooled sample
BeforeM(d, m) == ISum([i \in DOMAIN d.a |-> IF ASigned(AWrap(d.a[i]) - m) < -3 THEN d.w[i] ELSE 0])
AtM(d, m) == ISum([i \in DOMAIN d.a |-> IF ADist(AWrap(d.a[i]), m) <= 3 THEN d.w[i] ELSE 0])
OppM(S, m) == \E k \in DOMAIN S : \E i \in DOMAIN S[k].a : ADist(AWrap(S[k].a[i]), m) >= HalfT - 3
CmStat(c, n) ==
  LET N == ISum(n) M == ISum(c)
      s == FSum([k \in DOMAIN n |-> FDiv(FInt(c[k] * c[k]), FInt(n[k]))]) IN
  FSub(FMul(FDiv(FInt(N * N), FInt(M * (N - M))), s), FDiv(FInt(N * M), FInt(N - M)))

\* ---- two concentrations
Disp1(g, q) == FDiv(FSub(FInt(g.n[q]), g.R[q]), FInt(g.n[q] - 1))
TwoSided(f, d1, d2) == LET s == FDistSf(f, d1, d2) IN FMin(FOne, FMul(FTwo, FMin(s, FSub(FOne, s))))
ConcP(f, d1, d2) == FMin(FOne, FMul(FTwo, IF FLe(FOne, f) THEN FDistSf(f, d1, d2) ELSE FDistSf(FDiv(FOne, f), d2, d1)))
=============================================================================
