------------------------------- MODULE MC_Assoc -------------------------------
(* All small paired samples on a lattice. *)
EXTENDS Assoc
CONSTANTS Lattice, N
VARIABLES d, op
vars == <<d, op>>
Init == op = NoOp /\ \E a \in [1..N -> Lattice], b \in [1..N -> Lattice] : d = [a |-> a, b |-> b, x |-> [i \in 1..N |-> (a[i] + 3 * b[i]) \div 10000000]]
Ops == {One("RotA", 50000000, 1, 1), One("RotB", -110000000, 1, 1), One("RefA", 0, 1, 1), One("RefB", 0, 1, 1), One("SwapP", 0, 1, 2), One("Exchange", 0, 1, 1),
        One("ShiftX", 17, 1, 1), One("ScaleX", -2, 1, 1), One("TurnA", 1, 1, 1), One("TurnB", -1, 2, 1)}
Next == op.t = "New" /\ \E o \in Ops : op' = o /\ d' = PApply(o, d)
Spec == Init /\ [][Next]_vars
Tol == FDec(1, -5)
Sgn(o, r) == IF o.t \in {"RefA", "RefB"} THEN FNeg(r) ELSE r
Unit1(r) == FLe(FAbs(r), FAdd(FOne, Tol))
OkFL(P) == FLt(FDec(1, -4), FLDen(P))
OkJS(A, B) == A # <<>> /\ B # <<>> /\ FLt(FDec(1, -4), FMul(DotF(A, A), DotF(B, B)))
Ranges ==
  LET P == PairSums(d) A == SinAbout(d.a) B == SinAbout(d.b) q == ClSums(d) IN
  /\ FNear(FMul(FTwo, FLClosed(d)), FSum(P.ab), Tol)
  /\ OkFL(P) => Unit1(FisherLee(P))
  /\ OkJS(A, B) => Unit1(JsCor(A, B))
  /\ Unit1(RankCor(d))
  /\ ClClear(d, q) => FLe(FNeg(Tol), ClR2(q)) /\ Unit1(ClR2(q))
\* a variable is perfectly associated with itself
Self == d.a = d.b => /\ (OkFL(PairSums(d)) => FNear(FisherLee(PairSums(d)), FOne, Tol))
                     /\ (Untied(d.a) => FNear(RankCor(d), FOne, Tol))
Laws == [][LET P == PairSums(d) Q == PairSums(d') A == SinAbout(d.a) B == SinAbout(d.b) C == SinAbout(d'.a) D == SinAbout(d'.b) q == ClSums(d) r == ClSums(d') IN
  /\ OkFL(P) => FNear(FisherLee(Q), Sgn(op', FisherLee(P)), Tol)
  /\ OkJS(A, B) => FNear(JsCor(C, D), Sgn(op', JsCor(A, B)), Tol)
  /\ FNear(RankCor(d'), Sgn(op', RankCor(d)), Tol)
  /\ (op'.t # "Exchange" /\ ClClear(d, q) /\ ClClear(d', r)) => FNear(ClR2(q), ClR2(r), FDec(1, -4))
  ]_vars
=============================================================================
