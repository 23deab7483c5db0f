------------------------------- MODULE MC_CcReg -------------------------------
(* The least squares fit of order one on all small paired samples. *)
EXTENDS CcReg
CONSTANTS Lattice, Ax
AxDef == <<0, 70000000, 160000000, 250000000>>
VARIABLES d, op
vars == <<d, op>>
Init == op = NoOp /\ \E b \in [DOMAIN Ax -> Lattice] : d = [a |-> Ax, b |-> b, x |-> [i \in DOMAIN Ax |-> 0]]
Ops == {One("RotA", 50000000, 1, 1), One("RotB", -110000000, 1, 1), One("RefA", 0, 1, 1), One("RefB", 0, 1, 1), One("SwapP", 0, 1, 2), One("TurnA", 1, 1, 1), One("TurnB", -1, 2, 1)}
Next == op.t = "New" /\ \E o \in Ops : op' = o /\ d' = PApply(o, d)
Spec == Init /\ [][Next]_vars
Tol == FDec(1, -5)
f == FitOf(d.a, d.b, 1)
Fits ==
  f.ok =>
  /\ \A q \in {<<f.Q[i], v>> : i \in DOMAIN f.Q, v \in {f.rc, f.rs}} : FNear(DotF(q[1], q[2]), FZero, Tol)
  /\ FLe(f.rho2, FAdd(FOne, Tol))
  \* cos^2 + sin^2 = 1: explained and residual parts add up
  /\ FNear(FAdd(FMul(FInt(Len(d.a)), f.rho2), FAdd(DotF(f.rc, f.rc), DotF(f.rs, f.rs))), FInt(Len(d.a)), Tol)
Laws == [][LET u == FitOf(d.a, d.b, 1) v == FitOf(d'.a, d'.b, 1) IN
  (u.ok /\ v.ok) => /\ FNear(u.rho2, v.rho2, Tol)
                    /\ op'.t \in {"RotA", "RefA", "TurnA", "TurnB"} => \A i \in DOMAIN d.a : ASame(FDirOf(u, i), FDirOf(v, i), 2000)
                    /\ op'.t = "RotB" => \A i \in DOMAIN d.a : FDirOf(u, i) = ANaN \/ ASame(AWrap(FDirOf(u, i) + op'.x), FDirOf(v, i), 2000)
  ]_vars
=============================================================================
