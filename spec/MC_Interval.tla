---------------------------- MODULE MC_Interval ----------------------------
(* The laws of Interval on every sample over a lattice. *)
EXTENDS Interval
CONSTANTS Lattice, MaxN
VARIABLES d, op
vars == <<d, op>>

Ops(x) == {[t |-> "Rotate", x |-> v, i |-> 1, j |-> 1] : v \in {45000000, -90000000}}
     \cup {[t |-> t, x |-> 0, i |-> 1, j |-> 1] : t \in {"Reflect", "Wrap", "Reverse"}}
     \cup {[t |-> "Turn", x |-> v, i |-> i, j |-> 1] : v \in {-1, 1}, i \in 1..Len(x.a)}
Init == /\ op = NoOp /\ \E n \in 1..MaxN : \E a \in [1..n -> Lattice] : d = Sample1(a)
Next == op.t = "New" /\ \E o \in Ops(d) : op' = o /\ d' = Apply(o, d)
Spec == Init /\ [][Next]_vars

a == d.a
n == Len(a)
S == SortedA(a)
RangeIsHdi == LET w == HdiWidth(S, n) IN w = ArcRange(a) \/ n = 1
HdiMonotone == \A k \in 1..(n - 1) : HdiWidth(S, k) <= HdiWidth(S, k + 1)
Off == Offsets(a, a[1] + 1000)
QuantOrdered == \A p, q \in {0, 250, 333, 500, 900, 1000} : p <= q => Quant(Off, p) <= Quant(Off, q)
QuantInside == \A p \in {0, 250, 333, 500, 1000} : Off[1] <= Quant(Off, p) /\ Quant(Off, p) <= Off[n]
HalfWidthGrows == \A r \in {5, 7, 9, 95} :
  LET f == FDec(r, IF r > 9 THEN -2 ELSE -1) IN
  /\ FLt(ApproxSin2(20, f, 900), ApproxSin2(20, f, 950))
  /\ FLt(ApproxSin2(30, f, 950), ApproxSin2(20, f, 950))
\* the table's positions leave the same number of observations on both sides
Straddles == \A k \in 3..15 : MedTable[k][1] + MedTable[k][2] \in {k + 1, k, k + 2} /\ MedTable[k][1] <= MedTable[k][2]
Laws == [][
  /\ ArcRange(d.a) = ArcRange(d'.a)
  /\ \A k \in 1..Len(d.a) : HdiWidth(SortedA(d.a), k) = HdiWidth(SortedA(d'.a), k)
  ]_vars
=============================================================================
