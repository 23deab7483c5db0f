------------------------------- MODULE Mixture -------------------------------
(***************************************************************************)
(* Mixtures of circular laws and the EM algorithm.                         *)
(*                                                                         *)
(* A mixture is [p |-> weights, c |-> components], a component a law       *)
(* [f, p, loc] of Dist.  One step of EM goes from a mixture to the next:   *)
(* the weights become the mean responsibilities, and every component is    *)
(* refitted to the data weighted with its responsibilities.  For von Mises *)
(* components the refit is explicit (weighted mean direction, and the      *)
(* concentration estimate of Descr); otherwise it is any refit that does   *)
(* not lower the weighted likelihood, which is all monotonicity needs.     *)
(***************************************************************************)
EXTENDS Dist, Descr

\* log density of component c (aux computed once) at the angle x
LnDens(c, aux, x) ==
  IF c.f = "vonmises" THEN FSub(FMul(c.p[1], FCos(AWrap(x - c.loc))), aux)
  ELSE FLn(FMax(Core(c, aux, AWrap(x - c.loc)), FDec(1, -300)))
Auxes(m) == TLCEval([k \in DOMAIN m.c |-> Aux(m.c[k])])
\* ln(p_k f_k(x)), one row per component
LnJoint(m, xs) ==
  LET aux == Auxes(m) lp == TLCEval([k \in DOMAIN m.c |-> FLn(FMax(m.p[k], FDec(1, -32)))])
  IN TLCEval([k \in DOMAIN m.c |-> [i \in DOMAIN xs |-> FAdd(lp[k], LnDens(m.c[k], aux[k], xs[i]))]])
SeqMax(s) == FoldLeft(LAMBDA a, v : FMax(a, v), s[1], s)
LogSum(s) == LET b == TLCEval(SeqMax(s)) IN FAdd(b, FLn(FoldLeft(LAMBDA a, v : FAdd(a, FExp(FSub(v, b))), FZero, s)))
Col(J, i) == [k \in DOMAIN J |-> J[k][i]]
\* log density of the mixture at each point
LnMix(J) == TLCEval([i \in DOMAIN J[1] |-> LogSum(Col(J, i))])
LogLik(J) == FSum(LnMix(J))
Resp(J) == LET L == LnMix(J) IN TLCEval([k \in DOMAIN J |-> [i \in DOMAIN L |-> FExp(FSub(J[k][i], L[i]))]])
Weights(G) == [k \in DOMAIN G |-> FDiv(FSum(G[k]), FInt(Len(G[k])))]
\* first moment of the data weighted with one row of responsibilities
WMoment(g, xs) ==
  LET s == FSum(g) IN [w |-> s, c |-> FDiv(FSum([i \in DOMAIN xs |-> FMul(g[i], FCos(AWrap(xs[i])))]), s),
                               s |-> FDiv(FSum([i \in DOMAIN xs |-> FMul(g[i], FSin(AWrap(xs[i])))]), s)]
\* expected complete-data log-likelihood of mixture m under responsibilities G
QOf(G, m, xs) == LET J == LnJoint(m, xs) IN FSum([k \in DOMAIN J |-> FSum([i \in DOMAIN xs |-> FMul(G[k][i], J[k][i])])])
\* the part of it that belongs to component k alone
QComp(g, c, xs) == LET aux == TLCEval(Aux(c)) IN FSum([i \in DOMAIN xs |-> FMul(g[i], LnDens(c, aux, xs[i]))])
NPar(f) == CASE f = "vonmises" -> 2 [] f = "katojones" -> 4 [] OTHER -> 2
Bic(ll, n, K, npar) == FAdd(FMul(FInt(-2), ll), FMul(FLn(FInt(n)), FInt(K * npar + K - 1)))
=============================================================================
