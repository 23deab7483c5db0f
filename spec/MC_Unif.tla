------------------------------ MODULE MC_Unif ------------------------------
(* Uniformity statistics do not move with the zero direction (exhaustive on a lattice). *)
EXTENDS Unif
CONSTANTS Lattice, MaxN
VARIABLES d, op
vars == <<d, op>>

Ops(x) == {[t |-> "Rotate", x |-> v, i |-> 1, j |-> 1] : v \in {45000000, -90000000}}
     \cup {[t |-> t, x |-> 0, i |-> 1, j |-> 1] : t \in {"Reflect", "Wrap", "Reverse"}}
     \cup {[t |-> "Turn", x |-> v, i |-> i, j |-> 1] : v \in {-1, 1}, i \in 1..Len(x.a)}
Init == /\ op = NoOp /\ \E n \in 2..MaxN : \E a \in [1..n -> Lattice] : d = Sample1(a)
Next == op.t = "New" /\ \E o \in Ops(d) : op' = o /\ d' = Apply(o, d)
Spec == Init /\ [][Next]_vars

n == Len(d.a)
In01(p) == FLe(FDec(-1, -5), p) /\ FLe(p, FDec(100001, -5))
Ranges == LET s == Summary(d) m == AjneM(d.a) IN
  /\ In01(RayleighP(n, s.r1))
  /\ 0 <= m /\ 2 * m <= n /\ In01(AjneP(n, m))
  /\ In01(KuiperP(KuiperV(d.a), n)) /\ In01(WatsonP(WatsonU2(d.a)))
  /\ FLe(FZero, RaoU(d.a)) /\ FLe(RaoU(d.a), FDec(36000001, -5))
  /\ LET g == T - ArcRange(d.a) IN In01(RangeP(RangeTerms(n, g)))
\* coincident observations are the most extreme sample
Extremes == (Cardinality({AWrap(d.a[i]) : i \in 1..n}) = 1) =>
  /\ AjneM(d.a) = 0
  /\ FNear(RaoU(d.a), FDiv(FInt(360 * (n - 1)), FInt(n)), FDec(1, -5))
  /\ FNear(WatsonU2(d.a), FDiv(FInt(n), FInt(12)), FDec(1, -5))
Tol == FDec(2, -6)
Laws == [][
  /\ FNear(KuiperV(d.a), KuiperV(d'.a), Tol)
  /\ FNear(WatsonU2(d.a), WatsonU2(d'.a), Tol)
  /\ FNear(RaoU(d.a), RaoU(d'.a), Tol)
  /\ AjneM(d.a) = AjneM(d'.a)
  ]_vars
=============================================================================
