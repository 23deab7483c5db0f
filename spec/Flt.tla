-------------------------------- MODULE Flt --------------------------------
(***************************************************************************)
(* Decimal floating point for TLC, whose integers have 32 bits.            *)
(*                                                                         *)
(* A number is <<m, e>> and stands for m * 10^e, with 10^7 <= |m| < 10^8   *)
(* or m = 0; eight significant digits.  Every operator is total: NaN and   *)
(* the infinities are ordinary values, so a specification that meets a     *)
(* wild value recorded from the implementation evaluates to FALSE in the   *)
(* clause concerned instead of stopping TLC.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL Abs(x) == IF x < 0 THEN -x ELSE x
LOCAL P7 == 10000000
LOCAL P8 == 100000000

FNaN  == <<0, 9999>>
FZero == <<0, 0>>
FOne  == <<P7, -7>>
FTwo  == <<20000000, -7>>
FHalf == <<50000000, -8>>
FBig  == <<P7, 900>>                     \* stands for +infinity
FIsNaN(a) == a[2] = 9999
FIsInf(a) == a[2] = 900

LOCAL Pow10 == << 1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000 >>

LOCAL RDiv(m, d) == IF m >= 0 THEN (m + d \div 2) \div d ELSE -((-m + d \div 2) \div d)

\* normal form of m * 10^e for any 32-bit m with |m| < 2.1e9
FNorm(m, e) ==
  LET a == Abs(m) IN
  IF m = 0 THEN FZero
  ELSE IF a >= P7 /\ a < P8 THEN (IF e > 800 THEN <<IF m > 0 THEN P7 ELSE -P7, 900>> ELSE IF e < -800 THEN FZero ELSE <<m, e>>)
  ELSE IF a >= P8 THEN
         IF a >= 995000000 THEN LET q == RDiv(m, 100) IN IF Abs(q) < P7 THEN <<q * 10, e + 1>> ELSE <<q, e + 2>>
         ELSE LET q == RDiv(m, 10) IN IF Abs(q) >= P8 THEN <<q \div 10, e + 2>> ELSE <<q, e + 1>>
  ELSE LET k == IF a >= 1000000 THEN 1 ELSE IF a >= 100000 THEN 2 ELSE IF a >= 10000 THEN 3
                ELSE IF a >= 1000 THEN 4 ELSE IF a >= 100 THEN 5 ELSE IF a >= 10 THEN 6 ELSE 7
       IN <<m * Pow10[k + 1], e - k>>

FInt(n) == FNorm(n, 0)                   \* the integer n
FDec(m, e) == FNorm(m, e)                \* m * 10^e

FNeg(a) == IF FIsNaN(a) THEN a ELSE <<-a[1], a[2]>>
FAbs(a) == IF FIsNaN(a) THEN a ELSE <<Abs(a[1]), a[2]>>
FSign(a) == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0

FAdd(a, b) ==
  IF FIsNaN(a) \/ FIsNaN(b) THEN FNaN
  ELSE IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE IF a[2] >= b[2]
       THEN LET d == a[2] - b[2] IN
            IF d > 8 THEN a ELSE FNorm(a[1] * 10 + (IF d = 0 THEN b[1] * 10 ELSE RDiv(b[1], Pow10[d])), a[2] - 1)
       ELSE LET d == b[2] - a[2] IN
            IF d > 8 THEN b ELSE FNorm(b[1] * 10 + RDiv(a[1], Pow10[d]), b[2] - 1)

FSub(a, b) == FAdd(a, FNeg(b))

FMul(a, b) ==
  IF FIsNaN(a) \/ FIsNaN(b) THEN FNaN
  ELSE IF a[1] = 0 \/ b[1] = 0 THEN FZero
  ELSE LET x == Abs(a[1])  y == Abs(b[1])
           x1 == x \div 10000  x0 == x % 10000
           y1 == y \div 10000  y0 == y % 10000
           p == x1 * y1 * 10 + (x1 * y0 + x0 * y1 + (x0 * y0) \div 10000 + 500) \div 1000
       IN FNorm(IF (a[1] > 0) = (b[1] > 0) THEN p ELSE -p, a[2] + b[2] + 7)

FDiv(a, b) ==
  IF FIsNaN(a) \/ FIsNaN(b) \/ b[1] = 0 THEN FNaN
  ELSE IF a[1] = 0 THEN FZero
  ELSE LET x == Abs(a[1])  y == Abs(b[1])
           q0 == x \div y           r0 == (x % y) * 10
           q1 == r0 \div y          r1 == (r0 % y) * 10
           q2 == r1 \div y          r2 == (r1 % y) * 10
           q3 == r2 \div y          r3 == (r2 % y) * 10
           q4 == r3 \div y          r4 == (r3 % y) * 10
           q5 == r4 \div y          r5 == (r4 % y) * 10
           q6 == r5 \div y          r6 == (r5 % y) * 10
           q7 == r6 \div y          r7 == (r6 % y) * 10
           q8 == r7 \div y
           q == ((((((((q0 * 10 + q1) * 10 + q2) * 10 + q3) * 10 + q4) * 10 + q5) * 10 + q6) * 10 + q7) * 10) + q8
       IN FNorm(IF (a[1] > 0) = (b[1] > 0) THEN q ELSE -q, a[2] - b[2] - 8)

\* a < b, FALSE when either is NaN
FLt(a, b) ==
  IF FIsNaN(a) \/ FIsNaN(b) THEN FALSE
  ELSE LET sa == FSign(a)  sb == FSign(b) IN
       IF sa # sb THEN sa < sb
       ELSE IF sa = 0 THEN FALSE
       ELSE IF a[2] # b[2] THEN (IF sa > 0 THEN a[2] < b[2] ELSE a[2] > b[2])
       ELSE a[1] < b[1]
FLe(a, b) == ~FIsNaN(a) /\ ~FIsNaN(b) /\ ~FLt(b, a)
FMax(a, b) == IF FLt(a, b) THEN b ELSE a
FMin(a, b) == IF FLt(b, a) THEN b ELSE a

\* |a - b| <= tol * max(1, |a|, |b|) : the comparison used by most clauses
FNear(a, b, tol) ==
  /\ ~FIsNaN(a) /\ ~FIsNaN(b)
  /\ LET d == FAbs(FSub(a, b)) IN
     \/ FLe(d, tol)
     \/ FLe(d, FMul(tol, FMax(FAbs(a), FAbs(b))))
\* |a - b| <= tol
FClose(a, b, tol) == ~FIsNaN(a) /\ ~FIsNaN(b) /\ FLe(FAbs(FSub(a, b)), tol)
\* purely relative comparison, with an absolute floor
FRel(a, b, tol, floor) ==
  /\ ~FIsNaN(a) /\ ~FIsNaN(b)
  /\ LET d == FAbs(FSub(a, b)) IN FLe(d, floor) \/ FLe(d, FMul(tol, FMax(FAbs(a), FAbs(b))))
\* equality of recorded values, NaN equal to NaN
FSame(a, b, tol) == (FIsNaN(a) /\ FIsNaN(b)) \/ FNear(a, b, tol)

FSq(a) == FMul(a, a)

\* square root: Newton from an 8-digit-free guess
FSqrt(a) ==
  IF FIsNaN(a) \/ a[1] < 0 THEN FNaN
  ELSE IF a[1] = 0 THEN FZero
  ELSE LET odd == a[2] % 2 # 0
           e == IF odd THEN a[2] - 1 ELSE a[2]
           \* a = s * 10^e with e even, s = m or 10 m; guess for sqrt(m) by bands
           m == a[1]
           g0 == IF odd
                 THEN (IF m < 16000000 THEN 11000 ELSE IF m < 25000000 THEN 14000 ELSE IF m < 42000000 THEN 18000 ELSE IF m < 65000000 THEN 23000 ELSE 29000)
                 ELSE (IF m < 16000000 THEN 3500 ELSE IF m < 25000000 THEN 4500 ELSE IF m < 42000000 THEN 5700 ELSE IF m < 65000000 THEN 7300 ELSE 9000)
           x0 == FNorm(g0, e \div 2)
           x1 == FMul(FHalf, FAdd(x0, FDiv(a, x0)))
           x2 == FMul(FHalf, FAdd(x1, FDiv(a, x1)))
           x3 == FMul(FHalf, FAdd(x2, FDiv(a, x2)))
       IN x3

RECURSIVE FPoly(_, _, _)
\* sum_{i >= k} c[i] x^(i-k) for a sequence of coefficients
FPoly(c, x, k) == IF k = Len(c) THEN c[k] ELSE FAdd(c[k], FMul(x, FPoly(c, x, k + 1)))

LOCAL ExpC == << FOne, FOne, FHalf, FDec(16666667, -8), FDec(41666667, -9), FDec(83333333, -10),
                 FDec(13888889, -10), FDec(19841270, -11), FDec(24801587, -12), FDec(27557319, -13),
                 FDec(27557319, -14), FDec(25052108, -15), FDec(20876757, -16), FDec(16059044, -17) >>
FLn10 == <<23025851, -7>>
FPi   == <<31415927, -7>>
FTwoPi == <<62831853, -7>>

\* nearest integer of a (|a| < 2e9), as a TLA+ integer
FRound(a) ==
  IF FIsNaN(a) THEN 0
  ELSE IF a[2] >= 2 THEN (IF a[1] > 0 THEN 2000000000 ELSE -2000000000)
  ELSE IF a[2] >= 0 THEN (IF a[2] = 1 THEN a[1] * 10 ELSE a[1])
  ELSE IF a[2] < -8 THEN 0
  ELSE RDiv(a[1], Pow10[-a[2] + 1])

FExp(a) ==
  IF FIsNaN(a) THEN FNaN
  ELSE IF FLt(FInt(1800), a) THEN FBig
  ELSE IF FLt(a, FInt(-1800)) THEN FZero
  ELSE LET k == FRound(FDiv(a, FLn10))
           f == FSub(a, FMul(FInt(k), FLn10))
           y == FPoly(ExpC, f, 1)
       IN IF y[1] = 0 THEN FZero ELSE FNorm(y[1], y[2] + k)

LOCAL LnT == << FZero, FDec(69314718, -8), FDec(10986123, -7), FDec(13862944, -7), FDec(16094379, -7),
                FDec(17917595, -7), FDec(19459101, -7), FDec(20794415, -7), FDec(21972246, -7), FDec(23025851, -7) >>
LOCAL AthC == << FTwo, FDec(66666667, -8), FDec(40000000, -8), FDec(28571429, -8), FDec(22222222, -8), FDec(18181818, -8), FDec(15384615, -8), FDec(13333333,-8), FDec(11764706,-8) >>
FLn(a) ==
  IF FIsNaN(a) \/ a[1] <= 0 THEN FNaN
  ELSE LET c == RDiv(a[1], P7)                      \* 1..10
           m == <<a[1], -7>>                         \* in [1, 10)
           fc == FInt(c)
           t == FDiv(FSub(m, fc), FAdd(m, fc))
           t2 == FSq(t)
       IN FAdd(FAdd(FMul(FInt(a[2] + 7), FLn10), LnT[c]), FMul(t, FPoly(AthC, t2, 1)))

FPowI(a, n) ==                                       \* a^n, small integer n >= 0
  LET RECURSIVE Go(_)
      Go(k) == IF k = 0 THEN FOne ELSE IF k % 2 = 0 THEN LET h == Go(k \div 2) IN FSq(h) ELSE FMul(a, Go(k - 1))
  IN Go(n)

RECURSIVE FSumFrom(_, _)
FSumFrom(s, k) == IF k > Len(s) THEN FZero ELSE FAdd(s[k], FSumFrom(s, k + 1))
FSum(s) == FSumFrom(s, 1)
=============================================================================
