-------------------------------- MODULE Cluster --------------------------------
(***************************************************************************)
(* Clustering of directions.                                               *)
(*                                                                         *)
(* Agglomeration: the state is a partition, a function from cluster        *)
(* numbers to sequences of observations; Join merges the two clusters with *)
(* the nearest mean directions under a new number.                         *)
(* k-means: the state is a sequence of centres; Lloyd gives every          *)
(* observation to its nearest centre and moves centres to the means.       *)
(***************************************************************************)
EXTENDS Distance
\* distance for two directions `e` apart, 0 <= e <= T/2
FDist(metric, e) ==
  CASE metric \in {"center", "geodesic"} -> FRadOf(e)
    [] metric = "chord" -> FMul(FTwo, FSin(e \div 2))
    [] OTHER -> FMul(FTwo, FSq(FSin(e \div 2)))
\* mean direction and resultant length of the observations in idx
MeanOf(a, idx) ==
  LET n == Len(idx)
      c == FDiv(FSum8([i \in 1..n |-> Cos8(AWrap(a[idx[i]]))]), FInt(n))
      s == FDiv(FSum8([i \in 1..n |-> Sin8(AWrap(a[idx[i]]))]), FInt(n))
      r == FHyp(c, s)
  IN [r |-> r, m |-> IF n = 1 THEN AWrap(a[idx[1]]) ELSE IF FLt(r, FDec(2, -7)) THEN ANaN ELSE AAtan2(s, c)]
\* how well the mean direction is determined by data known to one unit
MTol(r) == IF FLt(r, FDec(1, -4)) THEN 1000000 ELSE 3 + FRound(FDiv(FInt(4), r))

\* --- agglomeration ---
Singletons(n) == [i \in 0..(n - 1) |-> <<i + 1>>]
Centres(a, P) == TLCEval([k \in DOMAIN P |-> MeanOf(a, P[k])])
PairsOf(P) == {p \in (DOMAIN P) \X (DOMAIN P) : p[1] < p[2]}
Gap(C, p) == IF C[p[1]].m = ANaN \/ C[p[2]].m = ANaN THEN T ELSE ADist(C[p[1]].m, C[p[2]].m)
MinGap(C, Q) == LET S == {Gap(C, p) : p \in Q} IN CHOOSE x \in S : \A y \in S : x <= y
Join(P, x, y, new) == TLCEval([k \in ((DOMAIN P) \ {x, y}) \cup {new} |-> IF k = new THEN P[x] \o P[y] ELSE P[k]])
NextNo(P) == 1 + CHOOSE k \in DOMAIN P : \A j \in DOMAIN P : j <= k
IsPartition(P, n) == /\ FoldFunction(LAMBDA x, s : Len(x) + s, 0, P) = n
                     /\ UNION {ToSet(P[k]) : k \in DOMAIN P} = 1..n
                     /\ \A k \in DOMAIN P : Len(P[k]) > 0
\* the partition a labelling describes (labels 0 .. k-1)
ByLabel(lab) == LET L == ToSet(lab) IN [k \in L |-> SelectSeq([i \in DOMAIN lab |-> i], LAMBDA i : lab[i] = k)]
Blocks(P) == {ToSet(P[k]) : k \in DOMAIN P}

\* silhouette (Rousseeuw 1987): 0 in a cluster of one
SumDist(metric, a, i, idx) == FoldLeft(LAMBDA s, j : FAdd(s, FDist(metric, ADist(a[i], a[j]))), FZero, idx)
Sil1(metric, a, lab, P, i) ==
  LET own == P[lab[i]]
      x == FDiv(SumDist(metric, a, i, own), FInt(Len(own) - 1))
      B == {FDiv(SumDist(metric, a, i, P[k]), FInt(Len(P[k]))) : k \in (DOMAIN P) \ {lab[i]}}
      y == CHOOSE v \in B : \A u \in B : FLe(v, u)
      m == FMax(x, y)
  IN IF Len(own) < 2 THEN [m |-> FOne, s |-> FZero] ELSE [m |-> m, s |-> IF FLt(m, FDec(1, -6)) THEN FZero ELSE FDiv(FSub(y, x), m)]

\* --- k-means ---
Nearest(C, x) == LET S == {ADist(C[k], x) : k \in DOMAIN C} IN CHOOSE v \in S : \A u \in S : v <= u
Assign(a, C) == TLCEval([i \in DOMAIN a |-> CHOOSE k \in DOMAIN C : ADist(C[k], a[i]) = Nearest(C, a[i]) /\ \A j \in DOMAIN C : j < k => ADist(C[j], a[i]) > Nearest(C, a[i])])
Members(lab, k) == SelectSeq([i \in DOMAIN lab |-> i], LAMBDA i : lab[i] = k)
Moved(a, lab, C) == TLCEval([k \in DOMAIN C |-> LET M == Members(lab, k) IN
  IF M = <<>> THEN C[k] ELSE LET u == MeanOf(a, M) IN IF u.m = ANaN THEN C[k] ELSE u.m])
Lloyd(a, C) == Moved(a, Assign(a, C), C)
\* what Lloyd's steps reduce
Spread(a, C) == FoldLeft(LAMBDA s, i : FAdd(s, FDist("angularseparation", Nearest(C, a[i]))), FZero, [i \in DOMAIN a |-> i])
=============================================================================
