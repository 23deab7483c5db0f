------------------------------- MODULE Sequence -------------------------------
(***************************************************************************)
(* A sample as a sequence in time: change point of direction (R) and of    *)
(* direction or concentration (T).  Homogeneity of several samples (Rao).  *)
(***************************************************************************)
EXTENDS Anova
\* running sums: P[k] is the vector sum of the first k - 1 readings
Prefix(a) ==
  LET e == TLCEval([i \in DOMAIN a |-> <<FCos(AWrap(a[i])), FSin(AWrap(a[i]))>>])
  IN FoldLeft(LAMBDA acc, v : Append(acc, <<FAdd(acc[Len(acc)][1], v[1]), FAdd(acc[Len(acc)][2], v[2])>>), <<<<FZero, FZero>>>>, e)
VDiff(u, v) == <<FSub(u[1], v[1]), FSub(u[2], v[2])>>
\* sequences of lengths of the first part, of the second, of all
Parts(a) ==
  LET n == Len(a) P == TLCEval(Prefix(a)) IN
  TLCEval([n |-> n, A |-> VLen(P[n + 1]), R1 |-> [k \in 1..n |-> VLen(P[k + 1])], R2 |-> [k \in 1..n |-> VLen(VDiff(P[n + 1], P[k + 1]))]])
RDiff(p) == TLCEval([k \in 1..p.n |-> IF k = p.n THEN FZero ELSE FSub(FAdd(p.R1[k], p.R2[k]), p.A)])
\* profile likelihood of a segment with mean resultant length x
Phi(x) == IF FLt(x, FDec(1, -7)) THEN FZero ELSE LET kp == KappaHat(x) IN FNeg(FAdd(FMul(FSub(FOne, x), kp), FLn(I0e(kp))))
TVal(p) == TLCEval([k \in 2..(p.n - 2) |->
  LET f == FDiv(FInt(k), FInt(p.n)) IN
  FAdd(FMul(f, Phi(FDiv(p.R1[k], FInt(k)))), FMul(FSub(FOne, f), Phi(FDiv(p.R2[k], FInt(p.n - k)))))])
FMaxOf(s) == FoldLeft(LAMBDA m, k : FMax(m, s[k]), s[CHOOSE k \in DOMAIN s : TRUE], SetToSeq(DOMAIN s))
FMeanOf(s) == FDiv(FoldLeft(LAMBDA m, k : FAdd(m, s[k]), FZero, SetToSeq(DOMAIN s)), FInt(Cardinality(DOMAIN s)))
\* no segment is concentrated in one point (its likelihood is unbounded)
SegClear(p) == \A k \in 2..(p.n - 2) : /\ FLt(p.R1[k], FMul(FDec(9998, -4), FInt(k)))
                                       /\ FLt(p.R2[k], FMul(FDec(9998, -4), FInt(p.n - k)))
                                       /\ BranchClear(FDiv(p.R1[k], FInt(k))) /\ BranchClear(FDiv(p.R2[k], FInt(p.n - k)))

\* ---- Rao: delta method for tangents of mean directions and squared resultants
FVar(y) == LET n == Len(y) m == FDiv(FSum(y), FInt(n)) IN FDiv(FSum([i \in 1..n |-> FSq(FSub(y[i], m))]), FInt(n - 1))
RaoGroup(e) ==
  LET n == Len(e)
      c == TLCEval([i \in 1..n |-> FCos(AWrap(e[i]))]) s == TLCEval([i \in 1..n |-> FSin(AWrap(e[i]))])
      cm == FDiv(FSum(c), FInt(n)) sm == FDiv(FSum(s), FInt(n))
      t == FDiv(sm, cm) IN
  TLCEval([c |-> cm, t |-> t, U |-> FAdd(FSq(cm), FSq(sm)),
           vt |-> FDiv(FVar([i \in 1..n |-> FDiv(FSub(s[i], FMul(t, c[i])), cm)]), FInt(n)),
           vU |-> FMul(FInt(4), FDiv(FVar([i \in 1..n |-> FAdd(FMul(cm, c[i]), FMul(sm, s[i]))]), FInt(n)))])
\* weighted sum of squares about the weighted mean
Hom(x, v) ==
  LET w == FSum([i \in DOMAIN x |-> FDiv(FOne, v[i])])
      m == FDiv(FSum([i \in DOMAIN x |-> FDiv(x[i], v[i])]), w) IN
  FSum([i \in DOMAIN x |-> FDiv(FSq(FSub(x[i], m)), v[i])])
PolarClear(G) == \A i \in DOMAIN G : FLt(FDec(1, -1), FAbs(G[i].c)) /\ FLt(FDec(2, -5), G[i].vt)
DispClear(G) == \A i \in DOMAIN G : FLt(FDec(1, -6), G[i].vU)
=============================================================================
