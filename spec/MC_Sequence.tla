----------------------------- MODULE MC_Sequence -----------------------------
(* All sequences on a lattice. *)
EXTENDS Sequence
CONSTANTS Lattice, MaxN
VARIABLES d, op
vars == <<d, op>>
Ops(n) == {One("Rotate", v, 1, 1) : v \in {70000000, -20000000}} \cup {One("Reflect", 0, 1, 1), One("Reverse", 0, 1, 1), One("Wrap", 0, 1, 1)}
        \cup {One("Turn", 1, i, 1) : i \in {1, n}}
Init == op = NoOp /\ \E n \in 4..MaxN : \E a \in [1..n -> Lattice] : d = Sample1(a)
Next == op.t = "New" /\ \E o \in Ops(Len(d.a)) : op' = o /\ d' = Apply(o, d)
Spec == Init /\ [][Next]_vars
Tol == FDec(1, -5)
Ranges == LET p == Parts(d.a) D == RDiff(p) V == TVal(p) IN
  /\ \A k \in DOMAIN D : FLe(FNeg(Tol), D[k])
  \* splitting cannot lower the likelihood: phi is convex and increasing
  /\ SegClear(p) => \A k \in DOMAIN V : FLe(FSub(Phi(FDiv(p.A, FInt(p.n))), FDec(2, -2)), V[k])
Laws == [][LET p == Parts(d.a) q == Parts(d'.a) D == RDiff(p) E == RDiff(q) n == p.n IN
  /\ FNear(FMaxOf(D), FMaxOf(E), Tol) /\ FNear(FMeanOf(D), FMeanOf(E), Tol)
  /\ \A k \in 1..(n - 1) : FNear(D[k], E[IF op'.t = "Reverse" THEN n - k ELSE k], Tol)
  /\ SegClear(p) => FNear(FMaxOf(TVal(p)), FMaxOf(TVal(q)), FDec(1, -4)) /\ FNear(FMeanOf(TVal(p)), FMeanOf(TVal(q)), FDec(1, -4))
  ]_vars
=============================================================================
