------------------------------- MODULE MC_Lloyd -------------------------------
(* Lloyd's iteration from all starting centres, on a lattice. *)
EXTENDS Cluster
CONSTANTS Lattice, N, K
VARIABLES a, C, steps
vars == <<a, C, steps>>
Init == /\ a \in [1..N -> Lattice] /\ (\A i \in 1..(N - 1) : a[i] <= a[i + 1])
        /\ \E f \in [1..K -> 1..N] : (\A i, j \in 1..K : i < j => f[i] # f[j]) /\ C = [k \in 1..K |-> a[f[k]]]
        /\ steps = 0
Next == C' = Lloyd(a, C) /\ C' # C /\ steps' = steps + 1 /\ UNCHANGED a
Spec == Init /\ [][Next]_vars
\* the sum of 1 - cos never grows, and the iteration is short
Descends == [][FLe(Spread(a, C'), FAdd(Spread(a, C), FDec(1, -6)))]_vars
Short == steps <= N + 2
\* at rest nobody wants to move and centres are means
AtRest == Lloyd(a, C) = C =>
  LET lab == Assign(a, C) IN
  /\ \A i \in 1..N : ADist(C[lab[i]], a[i]) = Nearest(C, a[i])
  /\ \A k \in 1..K : Members(lab, k) = <<>> \/ MeanOf(a, Members(lab, k)).m \in {ANaN, C[k]}
=============================================================================
