-------------------------------- MODULE Unif --------------------------------
(***************************************************************************)
(* Tests of uniformity: statistics and p-values as functions of a sample.  *)
(***************************************************************************)
EXTENDS Interval

Clip01(p) == FMin(FMax(p, FZero), FOne)
Alt(k) == IF k % 2 = 1 THEN FOne ELSE FNeg(FOne)

\* ---- Rayleigh, Zar (2010) eq. 27.2 and 27.4 (rewritten without cancellation)
RayleighZ(n, r) == FMul(FInt(n), FSq(r))
RayleighP(n, r) ==
  LET R2 == FSq(FMul(FInt(n), r))
      q == FInt(2 * n + 1) IN
  FExp(FNeg(FDiv(FMul(FInt(4), R2), FAdd(FSqrt(FSub(FSq(q), FMul(FInt(4), R2))), q))))

\* ---- chi-square goodness of fit to equal frequencies
ChiStat(w) == LET n == ISum(w) k == Len(w) e == FDiv(FInt(n), FInt(k)) IN
              FDiv(FSum([i \in DOMAIN w |-> FSq(FSub(FInt(w[i]), e))]), e)
ChiP(w) == ChiSf(ChiStat(w), Len(w) - 1)

\* ---- Hodges-Ajne: least number of observations in a half circle
\* directions where the count of a half circle can change
Doubled(a) == {AWrap(a[i]) : i \in DOMAIN a} \cup {AWrap(a[i] + HalfT) : i \in DOMAIN a}
RightOf(a, x) == Cardinality({i \in DOMAIN a : AWrap(AWrap(a[i]) - x) < HalfT})
\* the least count over open half circles bounded by a line through no observation
AjneM(a) ==
  LET n == Len(a)
      \* just past each direction of Doubled: observations at x itself fall behind
      N(x) == Cardinality({i \in DOMAIN a : LET y == AWrap(AWrap(a[i]) - x) IN y > 0 /\ y <= HalfT})
      c == TLCEval({N(x) : x \in Doubled(a)}) IN
  MinOf(SetToSeq(c \cup {n - k : k \in c}))
\* the code looks at lines half a degree (over scale) apart: does one fit into every gap?
Resolved(a, scale) ==
  LET S == SortSeq(SetToSeq(Doubled(a)), <) IN
  \A i \in DOMAIN S : LET g == IF i = Len(S) THEN S[1] + T - S[i] ELSE S[i + 1] - S[i] IN g > 500000 \div scale + 10
AjneLnP(n, m) == FSub(FAdd(FLn(FInt(n - 2 * m)), ChooseLn(n, m)), FMul(FInt(n - 1), FDec(69314718, -8)))
AjneP(n, m) == IF n - 2 * m <= 0 THEN FOne ELSE FExp(AjneLnP(n, m))
AjneA(n, m) == FDiv(FMul(FPi, FSqrt(FInt(n))), FInt(2 * (n - 2 * m)))

\* ---- order statistics as shares of the circle, against (i - c)/n
UnitOf(x) == FDiv(FNorm(x, 0), FNorm(T, 0))
FMaxSeq(s) == LET RECURSIVE G(_, _) G(k, m) == IF k > Len(s) THEN m ELSE G(k + 1, FMax(m, s[k])) IN G(2, s[1])
\* Kuiper: V* of Stephens' modified form
KuiperF(n) == LET q == FSqrt(FInt(n)) IN FAdd(FAdd(q, FDec(155, -3)), FDiv(FDec(24, -2), q))
KuiperV(a) ==
  LET S == TLCEval(SortedA(a)) n == Len(a)
      up == FMaxSeq([i \in 1..n |-> FSub(FDiv(FInt(i), FInt(n)), UnitOf(S[i]))])
      dn == FMaxSeq([i \in 1..n |-> FSub(UnitOf(S[i]), FDiv(FInt(i - 1), FInt(n)))]) IN
  FMul(KuiperF(n), FAdd(up, dn))
\* Kuiper's expansion for the unmodified sqrt(n) (D+ + D-)
KuiperP(V, n) ==
  LET q == FSqrt(FInt(n))
      u == FMul(FDiv(V, KuiperF(n)), q)
      v2 == FSq(u)
      t(k) == LET m == FInt(k * k) a1 == FMul(FInt(4), FMul(m, v2)) e == FExp(FMul(FInt(-2), FMul(m, v2))) IN
              FMul(e, FSub(FMul(FTwo, FSub(a1, FOne)),
                           FMul(FMul(FDiv(FMul(FInt(8), u), FMul(FInt(3), q)), m), FSub(a1, FInt(3))))) IN
  Clip01(FSum([k \in 1..25 |-> t(k)]))
\* Watson
WatsonU2(a) ==
  LET S == TLCEval(SortedA(a)) n == Len(a)
      e == [i \in 1..n |-> FSub(UnitOf(S[i]), FDiv(FInt(2 * i - 1), FInt(2 * n)))]
      m == FDiv(FSum(e), FInt(n)) IN
  FAdd(FSum([i \in 1..n |-> FSq(FSub(e[i], m))]), FDiv(FOne, FInt(12 * n)))
WatsonP(u) == Clip01(FMul(FTwo, FSum([k \in 1..30 |-> FMul(Alt(k), FExp(FMul(FMul(FInt(-2 * k * k), FSq(FPi)), u)))])))
\* Rao spacing, in degrees
RaoU(a) ==
  LET g == TLCEval(Gaps(SortedA(a))) n == Len(a)
      e == [i \in 1..n |-> FAbs(FSub(FNorm(g[i], -6), FDiv(FInt(360), FInt(n))))] IN FMul(FHalf, FSum(e))
\* range: P(the largest gap is at least the observed one)
RangeTerms(n, gap) ==
  LET g == UnitOf(gap)
      k == LET q == T \div gap IN IF q > n THEN n ELSE q IN
  [i \in 1..k |-> LET b == FSub(FOne, FMul(FInt(i), g)) IN
     IF n = 1 THEN FOne ELSE IF b[1] <= 0 THEN FZero ELSE FMul(FExp(ChooseLn(n, i)), FPowI(b, n - 1))]
RangeP(t) == FSum([i \in DOMAIN t |-> FMul(Alt(i), t[i])])
=============================================================================
