-------------------------------- MODULE ClReg --------------------------------
(***************************************************************************)
(* Regression of a direction on numbers (Fisher and Lee 1992):             *)
(* theta ~ VM(mu + 2 atan(x.beta), kappa), kappa constant or               *)
(* exp(alpha + x.gamma).  A parameter record m is                          *)
(*   [beta, mu (angle), kap (one per observation)].                        *)
(***************************************************************************)
EXTENDS Pairs
Obs_(X) == [i \in 1..Len(X[1]) |-> i]
Lin(X, b, i) == FoldLeft(LAMBDA s, j : FAdd(s, FMul(b[j], X[j][i])), FZero, [j \in DOMAIN X |-> j])
LinkA(z) == 2 * ASigned(AAtan2(z, FOne))                     \* 2 atan z, as an angle
\* deviations of the response from its regression, before mu is taken off
DevsOf(th, X, b) == TLCEval([i \in DOMAIN th |-> AWrap(AWrap(th[i]) - LinkA(Lin(X, b, i)))])
KapOf(X, al, g) == TLCEval([i \in 1..Len(X[1]) |-> FExp(FAdd(al, Lin(X, g, i)))])
WSum(w, F(_), a) == FoldLeft(LAMBDA s, i : FAdd(s, FMul(w[i], F(a[i]))), FZero, [i \in DOMAIN a |-> i])
MuVec(kap, dv) == <<WSum(kap, FCos, dv), WSum(kap, FSin, dv)>>
ResOf(dv, mu) == TLCEval([i \in DOMAIN dv |-> AWrap(dv[i] - mu)])
LogLik(kap, res) == FoldLeft(LAMBDA s, i : FAdd(s, FSub(FMul(kap[i], FCos(res[i])), LnI0(kap[i]))), FZero, [i \in DOMAIN res |-> i])
GCol(X, b, j) == TLCEval([i \in 1..Len(X[1]) |-> LET z == Lin(X, b, i) IN FDiv(FMul(FTwo, X[j][i]), FAdd(FOne, FSq(z)))])
Dot3(u, v, w) == FoldLeft(LAMBDA s, i : FAdd(s, FMul(u[i], FMul(v[i], w[i]))), FZero, [i \in DOMAIN u |-> i])
Abs3(u, v) == FoldLeft(LAMBDA s, i : FAdd(s, FAbs(FMul(u[i], v[i]))), FZero, [i \in DOMAIN u |-> i])
\* derivative of the log-likelihood in beta_j and, for log-linear kappa, along a column
ScoreB(X, b, kap, res, j) == Dot3(GCol(X, b, j), kap, [i \in DOMAIN res |-> FSin(res[i])])
ScoreG(col, kap, res) == Dot3(col, kap, [i \in DOMAIN res |-> FSub(FCos(res[i]), A1K(kap[i]))])
A1Prime(k) == LET a == A1K(k) IN FSub(FSub(FOne, FDiv(a, k)), FSq(a))
\* information matrix of columns C with weights w, and the diagonal of its inverse
Gram(C, w) == TLCEval([i \in DOMAIN C |-> [j \in DOMAIN C |-> Dot3(C[i], C[j], w)]])
Det2(a, b, c, e) == FSub(FMul(a, e), FMul(b, c))
DetM(M) == CASE Len(M) = 1 -> M[1][1]
             [] Len(M) = 2 -> Det2(M[1][1], M[1][2], M[2][1], M[2][2])
             [] OTHER -> FAdd(FSub(FMul(M[1][1], Det2(M[2][2], M[2][3], M[3][2], M[3][3])), FMul(M[1][2], Det2(M[2][1], M[2][3], M[3][1], M[3][3]))),
                              FMul(M[1][3], Det2(M[2][1], M[2][2], M[3][1], M[3][2])))
Drop(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
MinorM(M, k) == LET R == Drop(M, k) IN [i \in DOMAIN R |-> Drop(R[i], k)]
InvDiag(M, k) == IF Len(M) = 1 THEN FDiv(FOne, M[1][1]) ELSE FDiv(DetM(MinorM(M, k)), DetM(M))
MClear(M) == LET p == FoldLeft(LAMBDA s, i : FMul(s, M[i][i]), FOne, [i \in DOMAIN M |-> i]) IN p[1] > 0 /\ FLt(FMul(FDec(1, -2), p), DetM(M))
OnesF(n) == [i \in 1..n |-> FOne]
=============================================================================
