----------------------------- MODULE MC_Median -----------------------------
(* The median's laws, exhaustively on a lattice. *)
EXTENDS Median
CONSTANTS Lattice, MaxN, Bins, MaxF
VARIABLES d, op, g
vars == <<d, op, g>>
Ops(x) == {[t |-> "Rotate", x |-> 45000000, i |-> 1, j |-> 1], [t |-> "Reflect", x |-> 0, i |-> 1, j |-> 1],
           [t |-> "Reverse", x |-> 0, i |-> 1, j |-> 1], [t |-> "Turn", x |-> 1, i |-> 1, j |-> 1]}
InitA == g = FALSE /\ \E n \in 1..MaxN : \E a \in [1..n -> Lattice] : d = Sample1(a)
InitG == g = TRUE /\ \E m \in Bins : \E w \in [1..m -> 0..MaxF] :
            /\ \E i \in 1..m : w[i] > 0
            /\ d = [a |-> [i \in 1..m |-> (T \div m) * (i - 1)], w |-> w]
Init == op = NoOp /\ (InitA \/ InitG)
Next == op.t = "New" /\ ~g /\ g' = g /\ \E o \in Ops(d) : op' = o /\ d' = Apply(o, d)
Spec == Init /\ [][Next]_vars
Dirs(x, I) == {AWrap(x.a[i]) : i \in I}
MustInMay == ~g => LET D == Devs(d.a) IN MustBe(d.a, D) \subseteq MayBe(d.a, D) /\ MustBe(d.a, D) # {}
\* mean deviation is linear between observations and their antipodes and has
\* its minima at observations: no direction beats the best observation
PiecewiseLinear == ~g => LET D == Devs(d.a) m == MinLimb(D) IN
   \A c \in {i * 15000000 : i \in 0..23} : ~LimbLt(DevSum(d.a, c), m)
\* one crossing: the halves really are halves
Halves == g => LET C == Crossing(d) IN Cardinality(C) = 1 =>
   LET i == CHOOSE j \in C : TRUE m == Len(d.w) b == BinAt(i + 1, m) IN LeftTwice(d, i) <= Size(d) /\ LeftTwice(d, b) >= Size(d)
GroupRotates == g => LET C == Crossing(d) m == Len(d.w) IN Cardinality(C) = 1 =>
   LET e == [d EXCEPT !.w = [i \in 1..m |-> d.w[BinAt(i - 1, m)]]]  i == CHOOSE j \in C : TRUE IN
   /\ Crossing(e) = {BinAt(i + 1, m)}
   /\ LeftTwice(d, i) # LeftTwice(d, BinAt(i + 1, m)) => ANear(GroupedMedian(e, BinAt(i + 1, m)), GroupedMedian(d, i) + T \div m, 3)
GroupMirrors == g => LET C == Crossing(d) m == Len(d.w) IN Cardinality(C) = 1 =>
   LET e == [d EXCEPT !.w = [i \in 1..m |-> d.w[BinAt(2 - i, m)]]] i == CHOOSE j \in C : TRUE IN
   LeftTwice(d, i) # LeftTwice(d, BinAt(i + 1, m)) =>
     /\ Cardinality(Crossing(e)) = 1
     /\ ANear(GroupedMedian(e, CHOOSE j \in Crossing(e) : TRUE), -GroupedMedian(d, i), 3)
Moved(o, S) == {CASE o.t = "Rotate" -> AWrap(v + o.x) [] o.t = "Reflect" -> AWrap(-v) [] OTHER -> v : v \in S}
Laws == [][
  /\ Dirs(d', MustBe(d'.a, Devs(d'.a))) = Moved(op', Dirs(d, MustBe(d.a, Devs(d.a))))
  /\ Dirs(d', CountBest(d'.a)) = Moved(op', Dirs(d, CountBest(d.a)))
  ]_vars
=============================================================================
