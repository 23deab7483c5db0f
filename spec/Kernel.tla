-------------------------------- MODULE Kernel --------------------------------
(***************************************************************************)
(* The quartic kernel density estimate (Fisher 1993, section 2.2) of the    *)
(* state of Sample: at direction g, with bandwidth h <= pi,                 *)
(*   f(g) = 15 / (16 n h) sum over observations (1 - (e/h)^2)^2, e < h      *)
(* where e is the angular distance; drawn on the circle of radius q as the  *)
(* height q sqrt(1 + pi f) - q above it.                                   *)
(* And a catalogue of data sets, from which callers take copies.           *)
(***************************************************************************)
EXTENDS Sample

Weight(e, h) == LET u == FDiv(FNorm(e, 0), FNorm(h, 0)) v == FSub(FOne, FSq(u)) IN IF e >= h THEN FZero ELSE FSq(v)
Estimate(x, g, h) == FDiv(FMul(FDec(9375, -4), FSum([i \in DOMAIN x.a |-> Weight(ADist(AWrap(x.a[i]), g), h)])),
                          FMul(FInt(Len(x.a)), FRadOf(h)))
Height(f, q) == FSub(FMul(q, FSqrt(FAdd(FOne, FMul(FPi, f)))), q)
\* density back from a height
Density(y, q) == FDiv(FSub(FSq(FAdd(FDiv(y, q), FOne)), FOne), FPi)
\* k-th point (0 .. 99) of the grid of 100 points from 0 to one turn, both ends included
Grid(k) == IF k = 99 THEN 0 ELSE 3636363 * k + (7 * k) \div 11 + (IF (7 * k) % 11 > 5 THEN 1 ELSE 0)
Sum99(v) == FSum([i \in 1..99 |-> v[i]])

\* the catalogue: contents of a name never change, whatever is done to a copy
Load(cat, name) == cat[name]
=============================================================================
