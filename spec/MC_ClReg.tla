------------------------------- MODULE MC_ClReg -------------------------------
(* The scores are the derivatives of the log-likelihood. *)
EXTENDS ClReg
CONSTANTS Lattice, Betas
VARIABLES th, b, g
BetasDef == {-3, 0, 1}
vars == <<th, b, g>>
X == <<<<FDec(-7, -1), FZero, FDec(4, -1), FDec(11, -1)>>>>
Init == /\ th \in [1..4 -> Lattice] /\ b \in Betas /\ g \in Betas
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Half(v) == FDec(5 * v, -1)
H == FDec(2, -2)
LL(bb, al, gg, mu) == LET kap == KapOf(X, al, <<gg>>) IN LogLik(kap, ResOf(DevsOf(th, X, <<bb>>), mu))
mu0 == 20000000
Deriv(up, dn) == FDiv(FSub(up, dn), FMul(FTwo, H))
Scores ==
  LET bb == Half(b) gg == Half(g) al == FDec(3, -1)
      kap == KapOf(X, al, <<gg>>) res == ResOf(DevsOf(th, X, <<bb>>), mu0) tol == FDec(1, -2) IN
  /\ FNear(Deriv(LL(FAdd(bb, H), al, gg, mu0), LL(FSub(bb, H), al, gg, mu0)), ScoreB(X, <<bb>>, kap, res, 1), tol)
  /\ FNear(Deriv(LL(bb, al, FAdd(gg, H), mu0), LL(bb, al, FSub(gg, H), mu0)), ScoreG(X[1], kap, res), tol)
  /\ FNear(Deriv(LL(bb, FAdd(al, H), gg, mu0), LL(bb, FSub(al, H), gg, mu0)), ScoreG(OnesF(4), kap, res), tol)
\* the profile direction maximises the likelihood
Profile ==
  LET bb == Half(b) gg == Half(g) al == FDec(3, -1) kap == KapOf(X, al, <<gg>>) v == MuVec(kap, DevsOf(th, X, <<bb>>)) IN
  FLt(VLen(v), FDec(1, -3)) \/ \A m \in {mu0, 130000000, 250000000} : FLe(LL(bb, al, gg, m), FAdd(LL(bb, al, gg, AAtan2(v[2], v[1])), FDec(1, -5)))
=============================================================================
