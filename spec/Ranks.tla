-------------------------------- MODULE Ranks --------------------------------
(***************************************************************************)
(* Rank tests of two or more samples.                                      *)
(***************************************************************************)
EXTENDS Groups

\* ---- Watson's two-sample U2, Zar (2010) eq. 27.17 (ties share one step)
CountLe(a, x) == Cardinality({i \in DOMAIN a : AWrap(a[i]) <= x})
CountEq(a, x) == Cardinality({i \in DOMAIN a : AWrap(a[i]) = x})
Watson2(a, b) ==
  LET n1 == Len(a) n2 == Len(b) N == n1 + n2
      V == SetToSeq({AWrap(a[i]) : i \in DOMAIN a} \cup {AWrap(b[i]) : i \in DOMAIN b})
      \* n1 n2 d and the number of observations at each value: exact integers
      D == TLCEval([k \in DOMAIN V |-> n1 * CountLe(b, V[k]) - n2 * CountLe(a, V[k])])
      t == TLCEval([k \in DOMAIN V |-> CountEq(a, V[k]) + CountEq(b, V[k])])
      s1 == ISum([k \in DOMAIN V |-> t[k] * D[k]])
      s2 == ISum([k \in DOMAIN V |-> t[k] * D[k] * D[k]])
      \* (s2 - s1^2 / N) / (n1 n2 N^2)
      c == FSub(FInt(s2), FDiv(FMul(FInt(s1), FInt(s1)), FInt(N))) IN
  FDiv(FDiv(c, FMul(FInt(n1), FInt(n2))), FMul(FInt(N), FInt(N)))
Watson2P(u) == FMin(FOne, FMul(FTwo, FExp(FMul(FDec(-1974, -2), u))))

\* ---- Wheeler and Watson: uniform scores (no ties)
RankIn(all, x) == Cardinality({i \in DOMAIN all : AWrap(all[i]) <= AWrap(x)})
Score2(all, a) ==                                        \* C^2 + S^2 of the scores of one sample
  LET N == Len(all)
      ang == TLCEval([i \in DOMAIN a |-> (T \div N) * RankIn(all, a[i]) + ((T % N) * RankIn(all, a[i])) \div N])
      c == FSum8W([i \in DOMAIN a |-> Cos8(ang[i])], [i \in DOMAIN a |-> 1])
      s == FSum8W([i \in DOMAIN a |-> Sin8(ang[i])], [i \in DOMAIN a |-> 1]) IN
  FAdd(FSq(c), FSq(s))
WheelerW(E) ==                                           \* E: the samples, one reading per observation
  LET all == TLCEval(FlattenSeq(E)) N == Len(all) k == Len(E) IN
  IF k = 2 THEN FDiv(FMul(FInt(2 * (N - 1)), Score2(all, E[1])), FInt(Len(E[1]) * Len(E[2])))
  ELSE FMul(FTwo, FSum([q \in 1..k |-> FDiv(Score2(all, E[q]), FInt(Len(E[q])))]))

\* ---- Wallraff: Mann-Whitney of the distances from an angle per sample
Dists(E, v) == <<[i \in DOMAIN E[1] |-> ADist(AWrap(E[1][i]), v[1])], [i \in DOMAIN E[2] |-> ADist(AWrap(E[2][i]), v[2])]>>
\* twice U (an integer): pairs where the first is smaller count 2, ties 1
TwoU1(D) == LET x == D[1] y == D[2] IN
  ISum([i \in DOMAIN x |-> 2 * Cardinality({j \in DOMAIN y : x[i] < y[j]}) + Cardinality({j \in DOMAIN y : x[i] = y[j]})])
WallraffU2(D) == LET n == Len(D[1]) * Len(D[2]) u == TwoU1(D) IN IF u < 2 * n - u THEN u ELSE 2 * n - u
WallraffP(U2, n1, n2) ==
  LET z == FDiv(FDiv(FInt(U2 - n1 * n2 + 1), FTwo), FSqrt(FDiv(FInt(n1 * n2 * (n1 + n2 + 1)), FInt(12)))) IN
  NormTwo(z)
\* no two distances so close that rounding decides
ClearDists(D) == LET S == SortSeq(D[1] \o D[2], <) IN \A i \in 1..(Len(S) - 1) : LET g == S[i + 1] - S[i] IN g = 0 \/ g > 2

\* ---- angular randomisation test: scaled sum of distances between the samples
ArtStat(a, b) ==
  LET n == Len(a) m == Len(b)
      s == FSum([i \in 1..n |-> FSum([j \in 1..m |-> FRadOf(ADist(AWrap(a[i]), AWrap(b[j])))])]) IN
  FMul(FSqrt(FDiv(FInt(n * m), FInt(n + m))), s)
=============================================================================
