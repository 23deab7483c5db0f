------------------------------ MODULE Distance ------------------------------
(* Distances between directions (C04); a sample and a second list of angles. *)
EXTENDS Median

\* one minus the cosine, without cancellation
OneMinusCos(x, y) == LET h == FSin(ADist(x, y) \div 2) IN FMul(FTwo, FSq(h))
DistIs(metric, v, x, y) ==
  CASE metric = "center" ->                   \* signed, from y to x, in [-pi, pi]
         LET e == ASigned((x % T) - (y % T)) IN
         FNear(v, FRadOf(e), FDec(1, -6)) \/ (ADist(x, y) >= HalfT - 3 /\ FNear(FAbs(v), FPi, FDec(1, -6)))
    [] metric = "geodesic" -> FNear(v, FRadOf(ADist(x, y)), FDec(1, -6))
    [] metric = "angularseparation" -> FNear(v, OneMinusCos(x, y), FDec(1, -6))
    [] metric = "chord" -> FNear(v, FMul(FTwo, FSin(ADist(x, y) \div 2)), FDec(1, -6))
Metrics == <<"center", "geodesic", "angularseparation", "chord">>
=============================================================================
