------------------------------ MODULE Selftest ------------------------------
(* Values of every accelerated operator on a fixed pseudo-random set of      *)
(* arguments; harness/selftest.py prints them with and without the Java      *)
(* classes and compares the two outputs.                                     *)
EXTENDS Special, Sample, Json
CONSTANT N
VARIABLE k

\* a small linear congruential generator, inside 32 bits
Lcg(x) == (x * 4093 + 25673) % 262139
RECURSIVE Draw(_, _)
Draw(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Draw(Lcg(x), n - 1)
Num(x, y, z) == FNorm((x - 131000) * (1 + (y % 7000)), (z % 24) - 16)
Small(x, y) == FNorm((x - 131000) * 1000 + (y % 1000), -7)
Ang(x, y) == ((x * 5003) % 1400000000) + y - 700000000

Row(i) ==
  LET r == Draw((i * 7919 + 13) % 262139, 12)
      a == Num(r[1], r[2], r[3])  b == Num(r[4], r[5], r[6])
      c == Small(r[7], r[8])
      g == Ang(r[9], r[10])
      s == [j \in 1..12 |-> Cos8(Ang(r[j], j))]
      w == [j \in 1..12 |-> r[j] % 5]
  IN << FAdd(a, b), FSub(a, b), FMul(a, b), FDiv(a, b), FLt(a, b), FLe(a, b), FMax(a, b), FMin(a, b),
        FNear(a, b, FDec(1, -2)), FRel(a, FAdd(a, FMul(a, FDec(1, -5))), FDec(1, -4), FZero), FSame(a, a, FDec(1, -6)), FSq(a),
        FSqrt(FAbs(a)), FExp(c), FLn(FAbs(c)), FRound(c), FPowI(c, i % 6), FPoly(<<a, b, c>>, c, 1), FSum(<<a, b, c, a>>),
        FNorm(r[1] * 7000, -3), FAbs(a), FNeg(a), FSign(a),
        FSin(g), FCos(g), Sin8(g), Cos8(g), FRadOf(g), ARadToA(c), FSum8(s), FSum8W(s, w), AAtan2(a, b), AAcos(FSin(g)), AAsin(FCos(g)), FAtan(c),
        AWrap(g), ASigned(g), ADist(g, r[1]), AMul(g, 3), ISum(r),
        FAdd(FNaN, a), FMul(a, FNaN), FDiv(a, FZero), FExp(FNeg(FAbs(a))), NormSf(c), FNear(FNaN, a, FOne) >>

Init == k = 0
Next == k < N /\ k' = k + 1 /\ PrintT(<<"@@R", ToJson(Row(k))>>)
Spec == Init /\ [][Next]_k
=============================================================================
