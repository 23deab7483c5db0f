----------------------------- MODULE Trace_SimP -----------------------------
(* Simulated p-values against what they estimate, and their order (C10). *)
EXTENDS Unif, TraceBase
VARIABLES l, d, o
vars == <<l, d, o>>

\* p estimates x from B draws (five standard errors), x itself known to within eps
Agrees(p, x, B, eps) ==
  LET s == FSqrt(FDiv(FMul(FMax(x, FDec(1, -3)), FSub(FDec(1001, -3), FMin(x, FOne))), FInt(B))) IN
  FLe(FAbs(FSub(p, x)), FAdd(FAdd(FMul(FInt(5), s), FDiv(FInt(3), FInt(B))), eps))
\* the larger the statistic the smaller the p-value, for the same draws
Antitone(v) == \A i, j \in DOMAIN v : FLt(v[j][1], v[i][1]) => FLe(v[i][2], v[j][2])

\* Rao's spacing statistic (degrees) for two and three observations, exactly
RaoP(n, u) ==
  LET x == FDiv(u, FInt(360)) third == FDiv(FOne, FInt(3)) IN
  IF n = 2 THEN FSub(FOne, FMul(FTwo, x))
  ELSE IF FLe(x, third) THEN FSub(FOne, FMul(FInt(6), FSq(x)))
       ELSE FMul(FInt(3), FSq(FSub(FMul(FTwo, third), x)))

\* permutation test: the share of all splits with at least the observed sum of
\* distances between the groups (in millionths of a degree; splits within the rounding band are left open)
DMat(z) == [i \in DOMAIN z |-> [j \in DOMAIN z |-> ADist(z[i], z[j]) \div 1000]]
Cross(D, I) == LET J == DOMAIN D \ I IN ISum([i \in DOMAIN D |-> IF i \in I THEN ISum([j \in DOMAIN D |-> IF j \in J THEN D[i][j] ELSE 0]) ELSE 0])
Splits(n, k) == {I \in SUBSET (1..n) : Cardinality(I) = k}
ArtShare(z, k, slack) ==
  LET D == TLCEval(DMat(z)) S == TLCEval(Splits(Len(z), k)) t0 == Cross(D, 1..k) IN
  FDiv(FInt(Cardinality({I \in S : Cross(D, I) >= t0 + slack})), FInt(Cardinality(S)))
ArtStat(z, k) ==
  LET n == Len(z) s == FSum([i \in 1..k |-> FSum([j \in 1..(n - k) |-> FRadOf(ADist(z[i], z[k + j]))])]) IN
  FMul(FSqrt(FDiv(FInt(k * (n - k)), FInt(n))), s)

Def(r, x) ==
  LET q == r.o a == x.a n == Len(a) B == r.B z == FZero IN
  << <<"no-exception", r.exc = <<>> >>,
     <<"rayleigh", n < 5 \/ Agrees(q.ray[1], RayleighP(n, Summary(x).r1), B, FDec(15, -3))>>,
     <<"kuiper", n < 8 \/ Agrees(q.kui[1], KuiperP(KuiperV(a), n), B, FDec(45, -3))>>,
     <<"watson", n < 8 \/ Agrees(q.wat[1], WatsonP(WatsonU2(a)), B, FDec(35, -3))>>,
     <<"rao", n \notin {2, 3} \/ Agrees(q.rao[1], RaoP(n, RaoU(a)), B, FZero)>>,
     <<"coincident", n < 6 \/ \A v \in {q.ray[2], q.kui[2], q.wat[2], q.rao[2]} : FLe(v, FDiv(FInt(4), FInt(B)))>>,
     <<"equally-spaced", \A v \in {q.ray[3], q.kui[3], q.wat[3], q.rao[3]} : n = 1 \/ FNear(v, FOne, FDec(1, -6))>>,
     <<"order-rayleigh", Antitone(q.oray)>>, <<"order-kuiper", Antitone(q.okui)>>,
     <<"order-watson", Antitone(q.owat)>>, <<"order-rao", Antitone(q.orao)>>,
     \* two observations in every bin are no surprise for data recorded in bins
     <<"grouped-even", FLe(FDec(35, -2), q.gp[1])>>,
     <<"grouped-noise", Agrees(q.gp[3], q.gp[2], B, FMul(FInt(5), FSqrt(FDiv(FMul(q.gp[2], FSub(FDec(1001,-3), q.gp[2])), FInt(B)))))>> >>
  \o (IF r.art = <<>> THEN <<>> ELSE
     LET y == r.art[1] k == r.art[2] IN <<
     <<"art-statistic", FRel(q.art[1], ArtStat(y, k), FDec(1, -5), FDec(1, -5))>>,
     <<"art-p", Len(y) > 9 \/ (LET hi == ArtShare(y, k, -Len(y) * Len(y)) lo == ArtShare(y, k, Len(y) * Len(y)) IN
         \/ FLe(lo, q.art[2]) /\ FLe(q.art[2], hi)
         \/ Agrees(q.art[2], lo, B, FZero) \/ Agrees(q.art[2], hi, B, FZero))>>,
     <<"art-symmetric", FRel(q.art[3], q.art[1], FDec(1, -6), FDec(1, -6))>> >>)

Init == l = 1 /\ d = <<>> /\ o = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E r \in {Trace[l]} : \E x \in {IF r.op.t = "New" THEN r.data ELSE Apply(r.op, d)} :
           /\ d' = x
           /\ o' = r.o
           /\ \E cl \in {<< <<"data", x = r.data>> >> \o Def(r, x)} : Report(l, cl)
Spec == Init /\ [][Next]_vars
Accepted == AllConsumed
=============================================================================
