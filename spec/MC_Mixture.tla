----------------------------- MODULE MC_Mixture -----------------------------
(***************************************************************************)
(* EM on small data sets: the exact M-step never lowers the likelihood,    *)
(* the published concentration estimate lowers it by its own error at      *)
(* most, weights stay a distribution, and turning or mirroring data and    *)
(* mixture commutes with the step.  The driver of the iteration (burn-in,  *)
(* threshold, refits of one object) is explored along with it: an object   *)
(* reports convergence exactly when its last fit stopped early.            *)
(***************************************************************************)
EXTENDS Mixture
CONSTANTS N, Grid, MaxIter, Exact
VARIABLES x, m, k, ll, run
vars == <<x, m, k, ll, run>>
Step1 == T \div Grid
RECURSIVE KBis(_, _, _, _)
KBis(r, lo, hi, j) == IF j = 0 THEN FMul(FHalf, FAdd(lo, hi))
  ELSE LET c == FMul(FHalf, FAdd(lo, hi)) IN IF FLt(A1K(c), r) THEN KBis(r, c, hi, j - 1) ELSE KBis(r, lo, c, j - 1)
KExact(r) == IF FLt(FDec(9995, -4), r) THEN FInt(1000) ELSE KBis(r, FZero, FInt(1001), 34)
KCap(r) == IF FLt(FDec(9995, -4), r) THEN FInt(1000) ELSE FMax(KappaHat(r), FDec(1, -3))
Em(z, xs) ==
  LET G == Resp(LnJoint(z, xs)) W == Weights(G)
      NewC(i) == LET v == TLCEval(WMoment(G[i], xs)) h == TLCEval(FHyp(v.c, v.s))
                     mu == IF FLt(h, FDec(5, -8)) THEN z.c[i].loc ELSE AAtan2(v.s, v.c)
                 IN [f |-> "vonmises", loc |-> mu, p |-> <<IF Exact THEN KExact(h) ELSE KCap(h)>>]
  IN TLCEval([p |-> W, c |-> [i \in DOMAIN W |-> NewC(i)]])
LL(z, xs) == LogLik(LnJoint(z, xs))
VM(mu, kap) == [f |-> "vonmises", loc |-> mu, p |-> <<kap>>]
Data == {s \in [1..N -> 0..(Grid - 1)] : s[1] = 0 /\ \A i \in 1..(N - 1) : s[i] <= s[i + 1]}
Init == /\ \E s \in Data : x = [i \in 1..N |-> s[i] * Step1 + i * 1000003]
        /\ \E a, b \in 0..(Grid - 1), ka, kb \in {FHalf, FInt(4)} :
             a <= b /\ m = [p |-> <<FDec(4, -1), FDec(6, -1)>>, c |-> <<VM(a * Step1, ka), VM(b * Step1, kb)>>]
        /\ k = 0 /\ ll = LL(m, x)
        /\ run = [conv |-> FALSE, at |-> 0]
Next == /\ k < MaxIter
        /\ LET n == Em(m, x) IN
           /\ m' = n
           /\ \E v \in {LL(n, x)} :
                /\ ll' = v
                /\ run' = IF FLt(FAbs(FSub(v, ll)), FDec(1, -5)) THEN [conv |-> TRUE, at |-> k + 1] ELSE [conv |-> FALSE, at |-> 0]
        /\ k' = k + 1
        /\ x' = x
Spec == Init /\ [][Next]_vars
Climbs == [][FLe(FSub(ll, ll'), IF Exact THEN FDec(2, -5) ELSE FMul(FInt(N), FDec(2, -3)))]_vars
IsMix == FNear(FSum(m.p), FOne, FDec(1, -6)) /\ \A i \in DOMAIN m.p : FLe(FZero, m.p[i])
\* a step commutes with turning everything by 70 degrees
Turned(z) == [z EXCEPT !.c = [i \in DOMAIN z.c |-> [z.c[i] EXCEPT !.loc = AWrap(@ + 70000000)]]]
Commutes ==
  k = 0 => LET a == Em(m, x) b == Em(Turned(m), [i \in DOMAIN x |-> AWrap(x[i] + 70000000)]) IN
           \A i \in DOMAIN a.p : FNear(a.p[i], b.p[i], FDec(1, -6)) /\ FRel(a.c[i].p[1], b.c[i].p[1], FDec(1, -3), FDec(1, -5))
Flag == run.conv = (run.at # 0) /\ run.at <= k
=============================================================================
