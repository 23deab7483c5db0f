------------------------------ MODULE Special ------------------------------
(***************************************************************************)
(* The special functions that tail probabilities of the tests and the      *)
(* densities need, on the numbers of Flt: normal, chi-square, Student, F   *)
(* and binomial tails, modified Bessel functions.  Plain series and        *)
(* continued fractions; about six significant digits.                      *)
(***************************************************************************)
EXTENDS Trig

FSqrtPi == FDec(17724539, -7)
FLn2Pi == FDec(18378771, -7)

\* ---- normal distribution
RECURSIVE ErfSer(_, _, _, _)
LOCAL ErfSer(x2, term, sum, k) ==             \* sum of x^(2k+1) 2^k / (2k+1)!!
  IF k > 60 \/ FLt(FMul(term, FDec(1, 9)), sum) THEN sum
  ELSE LET t == FDiv(FMul(term, FMul(FTwo, x2)), FInt(2 * k + 1)) IN ErfSer(x2, t, FAdd(sum, t), k + 1)
RECURSIVE ErfcCf(_, _)
LOCAL ErfcCf(x, k) ==                         \* x + (k/2)/(x + ((k+1)/2)/(x + ...
  IF k > 40 THEN x ELSE FAdd(x, FDiv(FDiv(FInt(k), FTwo), ErfcCf(x, k + 1)))
\* erfc(x) for x >= 0
ErfcPos(x) ==
  LET e == FExp(FNeg(FSq(x))) IN
  IF x[1] = 0 THEN FOne
  ELSE IF FLt(x, FDec(2, 0)) THEN FSub(FOne, FMul(FDiv(FTwo, FSqrtPi), FMul(e, ErfSer(FSq(x), x, x, 1))))
  ELSE FDiv(e, FMul(FSqrtPi, ErfcCf(x, 1)))
NormSf(x) ==                                   \* P(Z > x)
  IF FIsNaN(x) THEN FNaN
  ELSE LET t == FMul(FDec(5, -1), ErfcPos(FDiv(FAbs(x), FDec(14142136, -7)))) IN
       IF x[1] >= 0 THEN t ELSE FSub(FOne, t)
NormCdf(x) == NormSf(FNeg(x))
NormTwo(x) == FMul(FTwo, NormSf(FAbs(x)))      \* P(|Z| > |x|)
\* upper quantile: bisection on the tail, |z| <= 8
RECURSIVE NormBis(_, _, _, _)
LOCAL NormBis(p, lo, hi, k) ==
  LET m == FMul(FHalf, FAdd(lo, hi)) IN
  IF k = 0 THEN m ELSE IF FLt(p, NormSf(m)) THEN NormBis(p, m, hi, k - 1) ELSE NormBis(p, lo, m, k - 1)
NormIsf(p) == IF FLt(FDec(5, -1), p) THEN FNeg(NormBis(FSub(FOne, p), FZero, FInt(8), 28)) ELSE NormBis(p, FZero, FInt(8), 28)

\* ---- log of the gamma function, x > 0 (Stirling after shifting)
RECURSIVE LnGam(_)
LnGam(x) ==
  IF FLt(x, FInt(8)) THEN FSub(LnGam(FAdd(x, FOne)), FLn(x))
  ELSE LET i == FDiv(FOne, x)  i2 == FSq(i) IN
       FAdd(FSub(FMul(FSub(x, FHalf), FLn(x)), x),
            FAdd(FMul(FHalf, FLn2Pi),
                 FMul(i, FSub(FDec(83333333, -9), FMul(i2, FSub(FDec(27777778, -10), FMul(i2, FDec(79365079, -11))))))))

\* ---- incomplete gamma: Q(a, x) = Gamma(a, x) / Gamma(a)
RECURSIVE GamSer(_, _, _, _, _)
LOCAL GamSer(a, x, term, sum, k) ==
  IF k > 400 \/ FLt(FMul(term, FDec(1, 9)), sum) THEN sum
  ELSE LET t == FDiv(FMul(term, x), FAdd(a, FInt(k))) IN GamSer(a, x, t, FAdd(sum, t), k + 1)
RECURSIVE GamCf(_, _, _, _, _, _, _)
\* modified Lentz
LOCAL GamCf(a, x, b, c, d, h, i) ==
  IF i > 200 THEN h
  ELSE LET an == FMul(FInt(-i), FSub(FInt(i), a))
           b2 == FAdd(b, FTwo)
           d1 == FAdd(FMul(an, d), b2)
           d2 == FDiv(FOne, IF d1[1] = 0 THEN FDec(1, -30) ELSE d1)
           c1 == FAdd(b2, FDiv(an, c))
           c2 == IF c1[1] = 0 THEN FDec(1, -30) ELSE c1
           del == FMul(d2, c2)
       IN IF FLt(FAbs(FSub(del, FOne)), FDec(2, -8)) THEN FMul(h, del)
          ELSE GamCf(a, x, b2, c2, d2, FMul(h, del), i + 1)
GammaQ(a, x) ==
  IF FIsNaN(x) THEN FNaN
  ELSE IF x[1] <= 0 THEN FOne
  ELSE LET pre == FExp(FSub(FSub(FMul(a, FLn(x)), x), LnGam(a))) IN
       IF FLt(x, FAdd(a, FOne))
       THEN FSub(FOne, FMul(pre, GamSer(a, x, FDiv(FOne, a), FDiv(FOne, a), 1)))
       ELSE LET b == FSub(FAdd(x, FOne), a) d == FDiv(FOne, b) IN FMul(pre, GamCf(a, x, b, FDec(1, 30), d, d, 1))
ChiSf(x, df) == GammaQ(FDiv(FInt(df), FTwo), FDiv(x, FTwo))
\* upper quantile of chi-square with one degree of freedom
Chi1Isf(p) == FSq(NormIsf(FDiv(p, FTwo)))

\* ---- incomplete beta
RECURSIVE BetaCf(_, _, _, _, _, _, _)
LOCAL BetaCf(a, b, x, c, d, h, m) ==
  IF m > 300 THEN h
  ELSE LET fm == FInt(m)  m2 == FInt(2 * m)
           n0 == FDec(1, -30)
           safe(v) == IF v[1] = 0 THEN n0 ELSE v
           aa == FDiv(FMul(FMul(fm, FSub(b, fm)), x), FMul(FSub(FAdd(a, m2), FOne), FAdd(a, m2)))
           d1 == FDiv(FOne, safe(FAdd(FOne, FMul(aa, d))))
           c1 == safe(FAdd(FOne, FDiv(aa, c)))
           h1 == FMul(h, FMul(d1, c1))
           bb == FNeg(FDiv(FMul(FMul(FAdd(a, fm), FAdd(FAdd(a, b), fm)), x), FMul(FAdd(a, m2), FAdd(FAdd(a, m2), FOne))))
           d2 == FDiv(FOne, safe(FAdd(FOne, FMul(bb, d1))))
           c2 == safe(FAdd(FOne, FDiv(bb, c1)))
           del == FMul(d2, c2)
           h2 == FMul(h1, del)
       IN IF FLt(FAbs(FSub(del, FOne)), FDec(2, -8)) THEN h2 ELSE BetaCf(a, b, x, c2, d2, h2, m + 1)
LOCAL BetaCf0(a, b, x) ==
  LET d0 == FSub(FOne, FDiv(FMul(FAdd(a, b), x), FAdd(a, FOne)))
      d == FDiv(FOne, IF d0[1] = 0 THEN FDec(1, -30) ELSE d0)
  IN BetaCf(a, b, x, FOne, d, d, 1)
\* I_x(a, b); y = 1 - x is passed to keep its digits
BetaI(a, b, x, y) ==
  IF FIsNaN(x) THEN FNaN
  ELSE IF x[1] <= 0 THEN FZero ELSE IF y[1] <= 0 THEN FOne
  ELSE LET pre == FExp(FAdd(FSub(LnGam(FAdd(a, b)), FAdd(LnGam(a), LnGam(b))), FAdd(FMul(a, FLn(x)), FMul(b, FLn(y))))) IN
       IF FLt(x, FDiv(FAdd(a, FOne), FAdd(FAdd(a, b), FTwo)))
       THEN FDiv(FMul(pre, BetaCf0(a, b, x)), a)
       ELSE FSub(FOne, FDiv(FMul(pre, BetaCf0(b, a, y)), b))
\* P(F > f) with n1 and n2 degrees of freedom
FDistSf(f, n1, n2) ==
  IF FIsNaN(f) THEN FNaN
  ELSE IF f[1] <= 0 THEN FOne
  ELSE LET u == FMul(FInt(n1), f)  t == FAdd(u, FInt(n2)) IN
       BetaI(FDiv(FInt(n2), FTwo), FDiv(FInt(n1), FTwo), FDiv(FInt(n2), t), FDiv(u, t))
\* P(|T| > |t|)
TTwo(t, df) == FDistSf(FSq(t), 1, df)

\* ---- binomial
RECURSIVE ChooseLn(_, _)
ChooseLn(n, k) == FSub(LnGam(FInt(n + 1)), FAdd(LnGam(FInt(k + 1)), LnGam(FInt(n - k + 1))))
RECURSIVE BinomLe(_, _, _)
\* sum_{i<=k} C(n, i) / 2^n
BinomLe(n, k, term0) ==
  LET RECURSIVE Go(_, _, _)
      Go(i, term, sum) == IF i > k THEN sum ELSE LET s == FAdd(sum, term) IN Go(i + 1, FDiv(FMul(term, FInt(n - i)), FInt(i + 1)), s)
  IN Go(0, term0, FZero)
FPow2Neg(n) == FExp(FMul(FInt(-n), FDec(69314718, -8)))

\* ---- modified Bessel functions
RECURSIVE I0Ser(_, _, _, _)
LOCAL I0Ser(q, term, sum, k) ==
  IF k > 400 \/ FLt(FMul(term, FDec(1, 9)), sum) THEN sum
  ELSE LET t == FDiv(FMul(term, q), FInt(k * k)) IN I0Ser(q, t, FAdd(sum, t), k + 1)
\* exp(-x) I0(x)
I0e(x) ==
  LET ax == FAbs(x) IN
  IF FLt(ax, FInt(20)) THEN FMul(FExp(FNeg(ax)), I0Ser(FMul(FDec(25, -2), FSq(ax)), FOne, FOne, 1))
  ELSE LET i == FDiv(FOne, FMul(FInt(8), ax)) IN
       FDiv(FPoly(<<FOne, FOne, FDec(45, -1), FDec(375, -1), FDec(459375, -3), FDec(74418750, -4), FDec(15008948, -2)>>, i, 1),
            FSqrt(FMul(FTwoPi, ax)))
I0(x) == FMul(FExp(FAbs(x)), I0e(x))
LnI0(x) == FAdd(FAbs(x), FLn(I0e(x)))
RECURSIVE BesCf(_, _, _, _)
\* I_{nu+1}/I_{nu} by its continued fraction, evaluated from term m downwards
LOCAL BesCf(x, nu, k, m) ==
  IF k > m THEN FZero ELSE FDiv(FOne, FAdd(FDiv(FInt(2 * (nu + k)), x), BesCf(x, nu, k + 1, m)))
BesRatio(nu, x) == IF x[1] = 0 THEN FZero
                   ELSE IF FLt(FAbs(x), FInt(5)) THEN BesCf(x, nu, 1, 22)
                   ELSE BesCf(x, nu, 1, 60)
\* I1/I0
A1K(x) == IF FLt(x, FInt(45)) THEN BesRatio(0, x)
          ELSE LET i == FDiv(FOne, x) IN FPoly(<<FOne, FDec(-5, -1), FDec(-125, -3), FDec(-125, -3), FDec(-1953125, -7), FDec(-40625, -5)>>, i, 1)
A2K(x) == FSub(FOne, FMul(FDiv(FTwo, x), A1K(x)))  \* I2/I0
RECURSIVE A1Bis(_, _, _, _)
LOCAL A1Bis(r, lo, hi, k) ==
  LET m == FMul(FHalf, FAdd(lo, hi)) IN
  IF k = 0 THEN m ELSE IF FLt(A1K(m), r) THEN A1Bis(r, m, hi, k - 1) ELSE A1Bis(r, lo, m, k - 1)
A1InvExact(r) == A1Bis(r, FZero, FInt(500), 40)
=============================================================================
