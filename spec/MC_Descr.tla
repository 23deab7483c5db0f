------------------------------ MODULE MC_Descr ------------------------------
(* Exhaustive check of the laws on every sample over a lattice. *)
EXTENDS Descr
CONSTANTS Lattice, MaxN, MaxW
VARIABLES d, op
vars == <<d, op>>

Ops(x) == {[t |-> "Rotate", x |-> v, i |-> 1, j |-> 1] : v \in {45000000, -90000000}}
     \cup {[t |-> "Reflect", x |-> 0, i |-> 1, j |-> 1], [t |-> "Expand", x |-> 0, i |-> 1, j |-> 1],
           [t |-> "Wrap", x |-> 0, i |-> 1, j |-> 1], [t |-> "Scale", x |-> 2, i |-> 1, j |-> 1],
           [t |-> "Reverse", x |-> 0, i |-> 1, j |-> 1]}
     \cup {[t |-> "Turn", x |-> v, i |-> i, j |-> 1] : v \in {-1, 1}, i \in 1..Len(x.a)}
     \cup {[t |-> "Swap", x |-> 0, i |-> i, j |-> Len(x.a)] : i \in 1..Len(x.a)}
     \cup {[t |-> "Split", x |-> 0, i |-> i, j |-> 1] : i \in 1..Len(x.a)}

Init == /\ op = NoOp
        /\ \E n \in 1..MaxN : \E a \in [1..n -> Lattice], w \in [1..n -> 1..MaxW] : d = [a |-> a, w |-> w]
Next == op.t = "New" /\ \E o \in Ops(d) : op' = o /\ d' = Apply(o, d)
Spec == Init /\ [][Next]_vars

Tol == FDec(2, -6)
S(x) == Summary(x)
\* invariants of a single state
Bounds == LET s == S(d) IN
  /\ FLe(s.r1, FDec(1000001, -6)) /\ FLe(FZero, s.r1)
  /\ FLe(s.r2, FDec(1000001, -6))
  /\ (Cardinality({AWrap(v) : v \in Range(d.a)}) = 1) => (FNear(s.r1, FOne, Tol) /\ ANear(s.m1, d.a[1], 20))
\* Jensen: the second moment is at least as concentrated as r1^4 allows
Coherent == LET s == S(d) IN FLe(FSq(s.r1), FDiv(FAdd(FAdd(FOne, s.r2), Tol), FTwo))
Laws == [][
  LET s == S(d) q == S(d') o == op' IN
  /\ FNear(s.r1, q.r1, Tol) /\ FNear(s.r2, q.r2, Tol)
  /\ FLt(FDec(1, -3), s.r1) => ANear(q.m1, MovedDir(o, s.m1), 200)
  /\ o.t = "Scale" => q.n = 2 * s.n
  /\ o.t # "Scale" => q.n = s.n
  /\ (FLt(FDec(1, -2), s.r1) /\ FLt(s.r1, FDec(99, -2))) =>
       /\ FNear(Dispersion(s), Dispersion(q), FDec(1, -3))
       /\ FNear(Skewness(q), IF o.t = "Reflect" THEN FNeg(Skewness(s)) ELSE Skewness(s), FDec(1, -3))
       /\ FNear(Kurtosis(s), Kurtosis(q), FDec(1, -3))
  ]_vars
=============================================================================
