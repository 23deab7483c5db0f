-------------------------------- MODULE Assoc --------------------------------
(* Correlation of two directions, and of a direction and a number. *)
EXTENDS Pairs
FSumOver(n, F(_)) == FoldLeft(LAMBDA s, i : FAdd(s, F(i)), FZero, [i \in 1..n |-> i])
\* ---- Fisher and Lee: sums over pairs of observations
PairSums(d) ==
  LET n == Len(d.a)
      sa == TLCEval([i \in 1..n |-> [j \in 1..n |-> FSin(AWrap(AWrap(d.a[i]) - AWrap(d.a[j])))]])
      sb == TLCEval([i \in 1..n |-> [j \in 1..n |-> FSin(AWrap(AWrap(d.b[i]) - AWrap(d.b[j])))]])
  \* sums over j for each i (each pair is counted twice)
  IN TLCEval([ab |-> [i \in 1..n |-> FSumOver(n, LAMBDA j : FMul(sa[i][j], sb[i][j]))],
              aa |-> [i \in 1..n |-> FSumOver(n, LAMBDA j : FSq(sa[i][j]))],
              bb |-> [i \in 1..n |-> FSumOver(n, LAMBDA j : FSq(sb[i][j]))]])
FLRatio(num, da, db) == FDiv(num, FSqrt(FMul(da, db)))
FLDen(P) == FMul(FHalf, FSqrt(FMul(FSum(P.aa), FSum(P.bb))))
FisherLee(P) == FLRatio(FSum(P.ab), FSum(P.aa), FSum(P.bb))
\* without observation i
Jack(P) == LET t == FSum(P.ab) u == FSum(P.aa) v == FSum(P.bb) IN
  TLCEval([i \in DOMAIN P.ab |-> FLRatio(FSub(t, FMul(FTwo, P.ab[i])), FSub(u, FMul(FTwo, P.aa[i])), FSub(v, FMul(FTwo, P.bb[i])))])
JackDenMin(P) == LET u == FSum(P.aa) v == FSum(P.bb) IN
  FoldLeft(LAMBDA m, i : FMin(m, FMin(FSub(u, FMul(FTwo, P.aa[i])), FSub(v, FMul(FTwo, P.bb[i])))), FInt(1000), [i \in DOMAIN P.ab |-> i])
JackBounds(P) ==
  LET n == Len(P.ab) J == Jack(P) m == FDiv(FSum(J), FInt(n)) s2 == FDiv(FSum([i \in 1..n |-> FSq(FSub(J[i], m))]), FInt(n - 1))
      c == FSub(FMul(FInt(n), FisherLee(P)), FMul(FInt(n - 1), m)) w == FMul(FDec(19599640, -7), FSqrt(FDiv(s2, FInt(n)))) IN
  <<FSub(c, w), FAdd(c, w)>>
\* the same numerator from four sums: sin(ai-aj) sin(bi-bj) summed over pairs
FLClosed(d) ==
  LET S(F(_), G(_)) == FSumOver(Len(d.a), LAMBDA i : FMul(F(AWrap(d.a[i])), G(AWrap(d.b[i])))) IN
  FSub(FMul(S(FCos, FCos), S(FSin, FSin)), FMul(S(FCos, FSin), S(FSin, FCos)))

\* ---- Jammalamadaka and SenGupta: about the mean directions
SinAbout(a) == LET m == MDir(Sample1(a), 1) IN IF m = ANaN THEN <<>> ELSE [i \in DOMAIN a |-> FSin(AWrap(AWrap(a[i]) - m))]
DotF(x, y) == FSumOver(Len(x), LAMBDA i : FMul(x[i], y[i]))
JsCor(A, B) == FLRatio(DotF(A, B), DotF(A, A), DotF(B, B))
JsL22(A, B) == FDiv(FSumOver(Len(A), LAMBDA i : FSq(FMul(A[i], B[i]))), FInt(Len(A)))
JsStat(A, B) == LET n == FInt(Len(A)) IN
  FMul(FSqrt(n), FMul(FSqrt(FDiv(FMul(FDiv(DotF(A, A), n), FDiv(DotF(B, B), n)), JsL22(A, B))), JsCor(A, B)))

\* ---- rank correlation (Fisher 1993, 6.3): twice the mid-ranks are integers
Rank2(a) == TLCEval([i \in DOMAIN a |-> 2 * Cardinality({j \in DOMAIN a : AWrap(a[j]) < AWrap(a[i])}) + Cardinality({j \in DOMAIN a : AWrap(a[j]) = AWrap(a[i])}) + 1])
RankLen(n, R) ==                                         \* |mean of exp(2 pi i R / 2n)|^2
  LET ang(k) == AWrap((T \div (2 * n)) * k + ((T % (2 * n)) * k) \div (2 * n))
      c == FSum8W([i \in 1..n |-> Cos8(ang(R[i]))], [i \in 1..n |-> 1]) s == FSum8W([i \in 1..n |-> Sin8(ang(R[i]))], [i \in 1..n |-> 1]) IN
  FDiv(FAdd(FSq(c), FSq(s)), FInt(n * n))
RankCor(d) == LET n == Len(d.a) p == Rank2(d.a) q == Rank2(d.b) IN
  FSub(RankLen(n, [i \in 1..n |-> p[i] - q[i]]), RankLen(n, [i \in 1..n |-> p[i] + q[i]]))
RankCrit(n) == FAdd(FDec(299, -2), FDiv(FDec(216, -2), FInt(n)))

\* ---- direction and number: variance of x explained by cosine and sine
ClSums(d) ==
  LET n == Len(d.a)
      Cen(v) == LET m == FDiv(FSum(v), FInt(n)) IN TLCEval([i \in 1..n |-> FSub(v[i], m)])
      c == Cen([i \in 1..n |-> FCos(AWrap(d.a[i]))]) s == Cen([i \in 1..n |-> FSin(AWrap(d.a[i]))]) x == Cen([i \in 1..n |-> FInt(d.x[i])])
  IN TLCEval([cc |-> DotF(c, c), ss |-> DotF(s, s), cs |-> DotF(c, s), xc |-> DotF(x, c), xs |-> DotF(x, s), xx |-> DotF(x, x)])
ClDet(q) == FSub(FMul(q.cc, q.ss), FSq(q.cs))
ClR2(q) == FDiv(FSub(FAdd(FMul(FSq(q.xc), q.ss), FMul(FSq(q.xs), q.cc)), FMul(FTwo, FMul(FMul(q.xc, q.xs), q.cs))), FMul(q.xx, ClDet(q)))
ClClear(d, q) == /\ q.xx[1] # 0 /\ FLt(FMul(FDec(1, -3), FMul(q.cc, q.ss)), ClDet(q))
                 /\ FLt(FDec(1, -6), q.cc) /\ FLt(FDec(1, -6), q.ss)
=============================================================================
