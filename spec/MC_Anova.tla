------------------------------ MODULE MC_Anova ------------------------------
(* Two groups of any small size, or four cells of a 2 x 2 design. *)
EXTENDS Anova
CONSTANTS Lattice, MaxN
VARIABLES s, op
vars == <<s, op>>
O(t, x, g, h) == [t |-> t, x |-> x, g |-> g, h |-> h, i |-> 1, j |-> 1]
Init == /\ op = GNoOp
        /\ \/ \E n \in 1..MaxN, m \in 2..MaxN : \E a \in [1..n -> Lattice], b \in [1..m -> Lattice] : s = <<Sample1(a), Sample1(b)>>
           \/ \E c \in [1..4 -> Lattice] : s = [k \in 1..4 |-> Sample1(<<c[k], c[5 - k]>>)]
Ops(S) == {O("RotateAll", v, 1, 1) : v \in {50000000, -110000000}} \cup {O("ReflectAll", 0, 1, 1)}
     \cup {O("SwapGroups", 0, 1, h) : h \in DOMAIN S} \cup {O("Reverse", 0, 2, 1), O("Turn", 1, 1, 1)}
Next == op.t = "New" /\ \E o \in Ops(s) : op' = o /\ s' = GApply(o, s)
Spec == Init /\ [][Next]_vars
Tol == FDec(1, -5)
Decomposed ==
  LET g == GSum(s) IN
  /\ FLe(FSub(FInt(g.N), g.SR), FSub(FInt(g.N), FSub(g.RA, Tol)))          \* resultants add up to at least the common one
  /\ Len(s) = 4 => LET h == HK(g, 2, 2) IN
       /\ FNear(h.Tt, FAdd(FAdd(h.A, h.B), FAdd(h.I, h.E)), Tol)
       /\ FNear(h.E0, FAdd(h.E, h.I), Tol)
       /\ FLe(FNeg(Tol), h.A) /\ FLe(FNeg(Tol), h.B) /\ FLe(FNeg(Tol), h.E)
Laws == [][LET g == GSum(s) h == GSum(s') IN
  /\ FNear(Between(g), Between(h), Tol) /\ FNear(Within(g), Within(h), Tol)
  /\ (EkClear(g) /\ EkClear(h) => FNear(EqualKappa(g), EqualKappa(h), FDec(1, -4)))
  /\ (Len(s) = 4 /\ op'.t # "SwapGroups" => LET x == HK(g, 2, 2) y == HK(h, 2, 2) IN FNear(x.A, y.A, Tol) /\ FNear(x.B, y.B, Tol) /\ FNear(x.I, y.I, Tol))
  /\ (Len(s) = 2 => LET c == <<BeforeM(s[1], 20000000), BeforeM(s[2], 20000000)>> n == <<Len(s[1].a), Len(s[2].a)>> IN
        ISum(c) \in 1..(ISum(n) - 1) => FNear(CmStat(c, n), CmStat(<<n[1] - c[1], n[2] - c[2]>>, n), FDec(1, -4)))
  ]_vars
=============================================================================
