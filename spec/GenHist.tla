------------------------------- MODULE GenHist -------------------------------
(* Histories of questions to the shared distribution objects.                 *)
(* The pool holds laws that are easily confused: a law, the same law turned,   *)
(* two with one parameter changed a little, another of the family, and one of  *)
(* another family.  Each step puts one question about one law of the pool.     *)
EXTENDS GenDist
CONSTANTS Kinds
VARIABLE pool
hvars == <<d, h, pool>>
\* one shape parameter changed by a thousandth or so (valid laws stay valid)
\* parameters that may change their sign
CanFlip(x, i) == (x.f \in {"vonmises_flattopped", "jonespewsey_sineskewed"} /\ i = Len(x.p)) \/ (x.f = "inverse_batschelet" /\ i = 3 /\ FLt(x.p[3], FDec(95, -2)) /\ FLt(FDec(-95, -2), x.p[3])) \/ (x.f = "inverse_batschelet" /\ i = 2) \/ (x.f = "wrapstable" /\ i = 2)
Tweak(x) ==
  IF x.p = <<>> \/ x.f = "katojones" THEN x
  ELSE LET i == TLCEval(Rnd(1, Len(x.p))) c == TLCEval(RndOf({FDec(999, -3), FDec(9999, -4), FHalf, FDec(9999999, -7), FDec(99999999, -8), IF CanFlip(x, i) THEN FNeg(FOne) ELSE FDec(99999, -5)}))
       IN TLCEval([x EXCEPT !.p[i] = IF x.f = "wrapstable" /\ i # 2 THEN IF i = 1 THEN (IF FLe(x.p[1], FDec(9, -1)) THEN @ ELSE FMul(@, FDec(999, -3))) ELSE FMul(@, FDec(1001, -3)) ELSE FMul(@, c)])
PoolOf(x) ==
  << x, IF x.f \in Fixed THEN x ELSE [x EXCEPT !.loc = (@ + RndOf({1, 1000000, HalfT, Rnd(1, T - 1)})) % T], Tweak(x), Tweak(x), Law(x.f), Law(RndOf(Fams)) >>
Ask == [i |-> TLCEval(RndOf({1, 2, 3, 4, Rnd(1, 6), Rnd(1, 6)})), q |-> TLCEval(RndOf(Kinds)), v |-> TLCEval(Rnd(1, 2))]
\* the last question again, about a law easily taken for the last one
Twin(a) == [a EXCEPT !.i = TLCEval(RndOf(1..4))]
HNew == \E f \in {RndOf(Fams)} : \E x \in {Law(f)} : \E pl \in {TLCEval(PoolOf(x))} :
          /\ d' = x /\ pool' = pl
          /\ h' = <<[op |-> [t |-> "New", x |-> 0], pool |-> pl,
                     xs |-> TLCEval([k \in 1..2 |-> TLCEval([i \in 1..3 |-> IF Rnd(0, 1) = 0 THEN AWrap(x.loc + Rnd(-40000000, 40000000)) ELSE Rnd(0, T - 1)])]),
                     qs |-> TLCEval([k \in 1..2 |-> TLCEval([i \in 1..3 |-> Rnd(1, 999999)])]), seed |-> Rnd(1, 1000000)]>>
HStep == \E a \in {IF Len(h) > 1 /\ Rnd(0, 1) = 0 THEN Twin(h[Len(h)].ask) ELSE Ask} : h' = Append(h, [op |-> [t |-> "Ask", x |-> 0], ask |-> a]) /\ UNCHANGED <<d, pool>>
HInit == d = <<>> /\ h = <<>> /\ pool = <<>>
HNext == /\ Len(h) < Depth
         /\ IF h = <<>> THEN HNew ELSE HStep
         /\ Len(h') = Depth => PrintT(<<"@@H", ToJson(h')>>)
HSpec == HInit /\ [][HNext]_hvars
=============================================================================
