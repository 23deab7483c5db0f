--------------------------------- MODULE Circ ---------------------------------
(***************************************************************************)
(* A data object: directions with a unit, binned or not, turned or not, and *)
(* the summary it carries.  The state is the sample of Sample together with *)
(* a configuration                                                         *)
(*   c.m    number of equal bins (0: not binned)                           *)
(*   c.rot  turn applied when the object is built (0: none)                *)
(*   c.ax   1 when the data are axes (recorded at either end)              *)
(* and the object is a function of both: Turned, Doubled and Binned give    *)
(* the sample whose summary (Descr) it has to report.                      *)
(***************************************************************************)
EXTENDS Descr

Axes(x) == [x EXCEPT !.a = [i \in DOMAIN x.a |-> AMul(AWrap(x.a[i]), 2)]]
Turned(c, x) == [x EXCEPT !.a = [i \in DOMAIN x.a |-> AWrap(AWrap(x.a[i]) + c.rot)]]
Source(c, x) == Turned(c, IF c.ax = 1 THEN Axes(x) ELSE x)

Edge(c, k) == k * (T \div c.m)                            \* k in 0 .. m
Centre(c, k) == Edge(c, k) - (T \div c.m) \div 2            \* k in 1 .. m
\* number of observations surely in bin k, and possibly in it (readings are known to two units)
Surely(c, y, k)   == ISum([i \in DOMAIN y.a |-> IF y.a[i] >= Edge(c, k - 1) + 3 /\ y.a[i] <= Edge(c, k) - 3 THEN y.w[i] ELSE 0])
Possibly(c, y, k) == ISum([i \in DOMAIN y.a |-> IF \E s \in {-T, 0, T} : y.a[i] + s >= Edge(c, k - 1) - 3 /\ y.a[i] + s <= Edge(c, k) + 3 THEN y.w[i] ELSE 0])
IsBinning(c, y, w) == /\ Len(w) = c.m /\ ISum(w) = Size(y)
                      /\ \A k \in 1..c.m : w[k] >= Surely(c, y, k) /\ w[k] <= Possibly(c, y, k)
\* the binning when no reading is at an edge
BinOf(c, a) == a \div (T \div c.m) + 1
Binned(c, y) == [a |-> [k \in 1..c.m |-> Centre(c, k)],
                 w |-> [k \in 1..c.m |-> ISum([i \in DOMAIN y.a |-> IF BinOf(c, y.a[i]) = k THEN y.w[i] ELSE 0])]]
Object(c, x) == LET y == Source(c, x) IN IF c.m = 0 THEN y ELSE Binned(c, y)

\* which interval for the mean is reported unless one is asked for
IntervalMethod(n, p) == IF FLt(p, FDec(5, -2)) /\ n >= 8 THEN (IF n < 25 THEN "bootstrap" ELSE "dispersion") ELSE "none"
\* half of a doubled direction, the end of the axis in the first half turn
HalfDir(m) == IF m = ANaN THEN ANaN ELSE AWrap(m) \div 2
=============================================================================
