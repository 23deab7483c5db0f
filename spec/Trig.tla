-------------------------------- MODULE Trig --------------------------------
(***************************************************************************)
(* Angles are integers, in millionths of a degree; a turn is T.  All the   *)
(* circle's arithmetic (wrapping, signed and unsigned differences, gaps,   *)
(* multiples) is therefore exact, and a rotation of a sample is an exact   *)
(* operation of the specification.  Sin8/Cos8 are scaled by 10^8.          *)
(* (TLA+ % is never negative, so wrapping needs no case for signs.)        *)
(***************************************************************************)
EXTENDS Flt

T == 360000000
HalfT == 180000000
ANaN == -2000000000                        \* an undefined direction

AWrap(a) == a % T                          \* representative in 0 .. T-1
ASigned(a) == LET b == a % T IN IF b > HalfT THEN b - T ELSE b   \* in (-T/2, T/2]
ADist(a, b) == LET d == ((a % T) - (b % T)) % T IN IF d > HalfT THEN T - d ELSE d
AMul(a, p) == (p * (a % T)) % T            \* |p| <= 5
AMean2(a, b) == AWrap((a % T) + ASigned((b % T) - (a % T)) \div 2)
\* equality of directions up to tol millionths of a degree
ANear(a, b, tol) == a # ANaN /\ b # ANaN /\ ADist(a, b) <= tol
ASame(a, b, tol) == (a = ANaN /\ b = ANaN) \/ ANear(a, b, tol)
\* b lies on the arc that runs counterclockwise from lo to hi
AInArc(b, lo, hi) == ((b % T) - (lo % T)) % T <= ((hi % T) - (lo % T)) % T
AInArcTol(b, lo, hi, tol) == LET x == ((b % T) - (lo % T) + tol) % T IN x <= (((hi % T) - (lo % T)) % T) + 2 * tol
AIsWrapped(a) == a >= 0 /\ a <= T

LOCAL SinD ==
 << 0, 1745241, 3489950, 5233596, 6975647, 8715574, 10452846, 12186934, 13917310, 15643447,
17364818, 19080900, 20791169, 22495105, 24192190, 25881905, 27563736, 29237170, 30901699,
32556815, 34202014, 35836795, 37460659, 39073113, 40673664, 42261826, 43837115, 45399050,
46947156, 48480962, 50000000, 51503807, 52991926, 54463904, 55919290, 57357644, 58778525,
60181502, 61566148, 62932039, 64278761, 65605903, 66913061, 68199836, 69465837, 70710678,
71933980, 73135370, 74314483, 75470958, 76604444, 77714596, 78801075, 79863551, 80901699,
81915204, 82903757, 83867057, 84804810, 85716730, 86602540, 87461971, 88294759, 89100652,
89879405, 90630779, 91354546, 92050485, 92718385, 93358043, 93969262, 94551858, 95105652,
95630476, 96126170, 96592583, 97029573, 97437006, 97814760, 98162718, 98480775, 98768834,
99026807, 99254615, 99452190, 99619470, 99756405, 99862953, 99939083, 99984770, 100000000 >>
\* x*y/10^8 for 0 <= x, y <= 10^8
LOCAL Mul8(x, y) ==
  LET x1 == x \div 10000  x0 == x % 10000
      y1 == y \div 10000  y0 == y % 10000
  IN x1 * y1 + (x1 * y0 + x0 * y1 + (x0 * y0) \div 10000 + 5000) \div 10000

\* sine of the angle q in the first quadrant, 0 <= q <= 90 degrees
LOCAL SinQ(q) ==
  LET d == (q + 500000) \div 1000000
      r == q - d * 1000000                           \* -500000 .. 500000
      ar == IF r < 0 THEN -r ELSE r
      de == (ar * 1745 + (ar * 3293) \div 10000 + 500) \div 1000   \* 1e-8 rad
      h == de \div 20
      c == (h * h + 250000) \div 500000              \* 1 - cos, 1e-8
      s == de - ((de \div 10) * c) \div 30000000     \* sin, 1e-8
      sd == SinD[d + 1]
      cd == SinD[91 - d]
      base == sd - ((sd \div 1000) * c + 50000) \div 100000
      cs == Mul8(cd, s)
  IN IF r < 0 THEN base - cs ELSE base + cs

Sin8(a) ==
  LET x == a % T IN
  IF x <= 90000000 THEN SinQ(x)
  ELSE IF x <= 180000000 THEN SinQ(180000000 - x)
  ELSE IF x <= 270000000 THEN -SinQ(x - 180000000)
  ELSE -SinQ(360000000 - x)
Cos8(a) == Sin8(a + 90000000)
FSin(a) == FNorm(Sin8(a), -8)
FCos(a) == FNorm(Cos8(a), -8)

FRadPer == <<17453293, -15>>
FRadOf(a) == IF a = ANaN THEN FNaN ELSE FMul(FNorm(a, 0), FRadPer)
\* nearest angle of a number of radians (|f| below about 35)
ARadToA(f) ==
  IF FIsNaN(f) THEN ANaN
  ELSE LET g == FDiv(f, FRadPer) IN
       IF FLt(FInt(2000000000), FAbs(g)) THEN ANaN ELSE FRound(g)

\* sums of scaled integers without overflow: two limbs
RECURSIVE Limb(_, _, _, _)
LOCAL Limb2(s, k, hi, lo) == Limb(s, k, hi, lo)
Limb(s, k, hi, lo) ==
  IF k > Len(s) THEN FAdd(FNorm(hi, -4), FNorm(lo, -8))
  ELSE Limb(s, k + 1, hi + (s[k] \div 10000), lo + (s[k] % 10000))
FSum8(s) == Limb(s, 1, 0, 0)
\* ... with integer weights
RECURSIVE LimbW(_, _, _, _, _)
LimbW(s, w, k, hi, lo) ==
  IF k > Len(s) THEN FAdd(FNorm(hi, -4), FNorm(lo, -8))
  ELSE LimbW(s, w, k + 1, hi + (s[k] \div 10000) * w[k], lo + (s[k] % 10000) * w[k])
FSum8W(s, w) == LimbW(s, w, 1, 0, 0)

\* direction of the vector (c, s), c and s numbers; ANaN for the zero vector
LOCAL AtnC == << FDec(99997726, -8), FDec(-33262347, -8), FDec(19354346, -8), FDec(-11643287, -8), FDec(52653320, -9), FDec(-11721200, -9) >>
AAtan2(s, c) ==
  IF FIsNaN(s) \/ FIsNaN(c) \/ (s[1] = 0 /\ c[1] = 0) THEN ANaN
  ELSE LET as == FAbs(s)  ac == FAbs(c)
           sw == FLt(ac, as)
           t == IF sw THEN FDiv(ac, as) ELSE FDiv(as, ac)
           p == FMul(t, FPoly(AtnC, FSq(t), 1))
           g0 == FRound(FDiv(p, FRadPer))
           g1 == IF sw THEN 90000000 - g0 ELSE g0
           g2 == IF c[1] < 0 THEN 180000000 - g1 ELSE g1
           g == IF s[1] < 0 THEN -g2 ELSE g2
           r == FSqrt(FAdd(FSq(s), FSq(c)))
           d == FDiv(FSub(FMul(s, FCos(g)), FMul(c, FSin(g))), r)
       IN AWrap(g + FRound(FDiv(d, FRadPer)))
AAcos(x) == IF FIsNaN(x) \/ FLt(FOne, FAbs(x)) THEN ANaN
            ELSE AAtan2(FSqrt(FMul(FSub(FOne, x), FAdd(FOne, x))), x)
AAsin(x) == IF FIsNaN(x) \/ FLt(FOne, FAbs(x)) THEN ANaN
            ELSE ASigned(AAtan2(x, FSqrt(FMul(FSub(FOne, x), FAdd(FOne, x)))))
\* arctan of a number as a number of radians in (-pi/2, pi/2)
FAtan(x) == FRadOf(ASigned(AAtan2(x, FOne)))
=============================================================================
