------------------------------ MODULE MC_Cluster ------------------------------
(* Agglomeration of all small samples on a lattice, one merge per step; ties *)
(* are broken in every possible way.                                         *)
EXTENDS Cluster
CONSTANTS Lattice, N, Goal
VARIABLES a, P, last
vars == <<a, P, last>>
Init == a \in [1..N -> Lattice] /\ (\A i \in 1..(N - 1) : a[i] <= a[i + 1]) /\ P = Singletons(N) /\ last = 0
Next == /\ Cardinality(DOMAIN P) > Goal
        /\ LET C == Centres(a, P) Q == PairsOf(P) g == MinGap(C, Q) IN
           /\ g < T
           /\ \E p \in Q : /\ Gap(C, p) <= g + 2
                           /\ P' = Join(P, p[1], p[2], NextNo(P)) /\ last' = g
        /\ UNCHANGED a
Spec == Init /\ [][Next]_vars
Partition == IsPartition(P, N)
\* numbers are given out in order and merging never gets stuck early
Numbers == DOMAIN P \subseteq 0..(2 * N - 2)
NeverStuck == Cardinality(DOMAIN P) > Goal => MinGap(Centres(a, P), PairsOf(P)) < T
\* only the merge of the last two clusters can lose the mean direction
MeansDefined == Cardinality(DOMAIN P) >= 2 => \A k \in DOMAIN P : Centres(a, P)[k].m # ANaN
\* equal readings end in one cluster before any unequal ones meet
EqualFirst == last > 0 => \A i, j \in 1..N : a[i] = a[j] => \E k \in DOMAIN P : {i, j} \subseteq ToSet(P[k])
\* clusters are arcs: no cluster has members of another between its own neighbours
SilRange == Cardinality(DOMAIN P) >= 2 =>
  LET lab == [i \in 1..N |-> CHOOSE k \in DOMAIN P : i \in ToSet(P[k])] IN
  \A i \in 1..N, m \in {"geodesic", "chord"} : FLe(FAbs(Sil1(m, a, lab, P, i).s), FDec(1000001, -6))
=============================================================================
