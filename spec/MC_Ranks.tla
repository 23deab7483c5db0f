------------------------------ MODULE MC_Ranks ------------------------------
(* Rank statistics of all small pairs of samples on a lattice. *)
EXTENDS Ranks
CONSTANTS Lattice, MaxN
VARIABLES s, op
vars == <<s, op>>
O(t, x, g, i, j) == [t |-> t, x |-> x, g |-> g, h |-> 3 - g, i |-> i, j |-> j]
Ops(S) == {O("RotateAll", v, 1, 1, 1) : v \in {50000000, -110000000}}
     \cup {O("ReflectAll", 0, 1, 1, 1), O("SwapGroups", 0, 1, 1, 1), O("Reverse", 0, 2, 1, 1)}
     \cup {O("Turn", 1, g, 1, 1) : g \in 1..2}
Init == /\ op = GNoOp
        /\ \E n \in 1..MaxN, m \in 1..MaxN : \E a \in [1..n -> Lattice], b \in [1..m -> Lattice] : s = <<Sample1(a), Sample1(b)>>
Next == op.t = "New" /\ \E o \in Ops(s) : op' = o /\ s' = GApply(o, s)
Spec == Init /\ [][Next]_vars
E(S) == <<S[1].a, S[2].a>>
n1 == Len(s[1].a)
n2 == Len(s[2].a)
Ranges ==
  LET u == Watson2(s[1].a, s[2].a) w == WallraffU2(Dists(E(s), <<0, 0>>)) IN
  /\ FLe(FDec(-1, -6), u) /\ 0 <= w /\ w <= n1 * n2
  /\ FLe(WallraffP(w, n1, n2), FDec(100001, -5))
\* identical samples differ by nothing
Same == s[1].a = s[2].a => FNear(Watson2(s[1].a, s[2].a), FZero, FDec(1, -6))
Tol == FDec(2, -6)
Laws == [][
  \* with ties the steps of the reflected order differ
  /\ ((op'.t # "ReflectAll" \/ Untied(Pool(s).a)) => FNear(Watson2(s[1].a, s[2].a), Watson2(s'[1].a, s'[2].a), Tol))
  /\ (Untied(Pool(s).a) => FNear(WheelerW(E(s)), WheelerW(E(s')), FDec(1, -5)))
  /\ FNear(ArtStat(s[1].a, s[2].a), ArtStat(s'[1].a, s'[2].a), Tol)
  /\ (LET v == GAngle(op', 50000000) IN WallraffU2(Dists(E(s), <<50000000, 50000000>>)) = WallraffU2(Dists(E(s'), <<v, v>>)))
  ]_vars
=============================================================================
