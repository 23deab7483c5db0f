------------------------------- MODULE GenDist -------------------------------
(* Histories of circular laws, drawn at random: which law is asked about, and *)
(* how it changes between the questions.                                      *)
EXTENDS Sample, Json
CONSTANTS Fams, OpNames, Depth, Deg
VARIABLES d, h
vars == <<d, h>>
P6(lo, hi) == FDec(Rnd(lo, hi), -6)
\* a positive number, any size from 10^e0 to 10^(e1 + 1)
Pos(e0, e1) == FDec(Rnd(10, 99), Rnd(e0, e1) - 1)
Edge(S) == RndOf(S)
Sometimes == Rnd(0, 3) = 0
Sgn(x) == IF Rnd(0, 1) = 0 THEN x ELSE FNeg(x)
\* concentration: kappa of the families with exponential kernels
Kap(S, e1) == IF Sometimes THEN Edge(S) ELSE Pos(-2, e1)
Pars(f) ==
  CASE f = "circularuniform" -> <<>>
    [] f = "triangular" -> << IF Sometimes THEN Edge({FZero, FDec(40528473, -8), FDec(1, -7), P6(400000, 405284)}) ELSE P6(1, 405284) >>
    [] f = "cardioid" -> << IF Sometimes THEN Edge({FZero, FHalf, FDec(1, -7), P6(495000, 499999)}) ELSE P6(1, 500000) >>
    [] f = "cartwright" -> << IF Sometimes THEN Edge({FOne, FTwo, FDec(5, -1), P6(990000, 1009999)}) ELSE FDec(Rnd(40, 999), Rnd(-3, -2)) >>
    [] f = "wrapnorm" -> << IF Sometimes THEN Edge({FDec(1, -3), FDec(9, -1), FDec(99, -2), FDec(998, -3)}) ELSE P6(1000, 999000) >>
    [] f = "wrapcauchy" -> << IF Sometimes THEN Edge({FZero, FDec(9, -1), FDec(98, -2), FDec(1, -7), P6(1, 999)}) ELSE P6(1, 985000) >>
    [] f = "vonmises" -> << Kap({FDec(1, -8), FOne, FInt(150), FInt(900)}, 1) >>
    [] f = "vonmises_flattopped" -> << Kap({FZero, FOne}, 0), IF Sometimes THEN Edge({FZero, FOne, FNeg(FOne), Sgn(P6(1, 9999)), Sgn(FDec(1, -9)), Sgn(P6(990000, 999999))}) ELSE Sgn(P6(0, 1000000)) >>
    [] f \in {"jonespewsey", "jonespewsey_sineskewed", "jonespewsey_asym"} ->
         LET ps == TLCEval(IF Sometimes THEN Edge({FZero, FOne, FNeg(FOne), FHalf, FDec(-5, -1), FDec(1, -4), FDec(-1, -5), FDec(2, -6), FDec(-2, -6), FDec(1001, -3)}) ELSE Sgn(P6(1000, 1500000)))
             k == TLCEval(LET c == TLCEval(IF Rnd(0, 7) = 0 THEN FZero ELSE Pos(-2, 0)) lim == FDiv(FDec(25, -1), FAbs(ps)) IN IF ps[1] < 0 /\ FLt(lim, c) THEN FDec(FRound(FMul(FInt(100), lim)), -2) ELSE c)
         IN <<k, ps>> \o (IF f = "jonespewsey" THEN <<>> ELSE IF f = "jonespewsey_sineskewed" THEN << IF Sometimes THEN Edge({FZero, FOne, FNeg(FOne), Sgn(P6(990000, 999999)), Sgn(FDec(1, -7))}) ELSE Sgn(P6(0, 1000000)) >>
                          ELSE << IF Sometimes THEN Edge({FZero, FDec(1, -8), P6(1, 999)}) ELSE P6(0, 950000) >>)
    [] f = "inverse_batschelet" -> << Kap({FZero, FOne}, 0), IF Sometimes THEN Edge({FZero, FDec(9, -1), Sgn(P6(1, 999)), Sgn(FDec(1, -8))}) ELSE Sgn(P6(0, 950000)), IF Rnd(0, 2) = 0 THEN Edge({FZero, FDec(-9, -1), FNeg(FOne), FDec(-995, -3), FNeg(P6(990000, 999999)), P6(1, 9999), FDec(-1, -8)}) ELSE Sgn(P6(0, 950000)) >>
    [] f = "wrapstable" -> << IF Sometimes THEN Edge({FOne, FTwo, FDec(9995, -4), FDec(10004, -4), P6(1990000, 1999999)}) ELSE P6(850000, 2000000), IF Sometimes THEN FZero ELSE Sgn(P6(0, 900000)), P6(350000, 2000000) >>
    [] OTHER -> \* Kato-Jones: rho exp(i lambda) = gamma + (1 - gamma) s exp(i phi)
         LET g == TLCEval(IF Rnd(0, 7) = 0 THEN FZero ELSE P6(1000, 800000))
             s == TLCEval(P6(0, 900000)) ph == TLCEval(Rnd(0, T - 1)) q == FMul(FSub(FOne, g), s)
             c == FAdd(g, FMul(q, FCos(ph))) w == FMul(q, FSin(ph)) r == FSqrt(FAdd(FSq(c), FSq(w)))
         IN IF FLt(FDec(85, -2), r) THEN <<g, g, FZero>> ELSE <<g, r, IF FLt(r, FDec(1, -4)) THEN FZero ELSE FRadOf(AAtan2(w, c))>>
Fixed == {"circularuniform", "triangular"}
Law(f) == TLCEval([f |-> f, p |-> Pars(f), loc |-> IF f \in Fixed THEN 0 ELSE IF Rnd(0, 5) = 0 THEN 0 ELSE IF Deg THEN 1000000 * Rnd(0, 359) ELSE Rnd(0, T - 1)])
Small(x) == FMul(x, FDec(1001, -3))
\* a neighbouring parameter vector: first parameter a tenth of a percent smaller
Nudge(x) == IF x.p = <<>> \/ x.f = "katojones" THEN x ELSE [x EXCEPT !.p[1] = FMul(@, FDec(999, -3))]
RndLawOp(x) ==
  LET t == TLCEval(RndOf(OpNames)) IN TLCEval([t |-> t, x |-> IF t = "Turn" THEN Rnd(1, T - 1) ELSE 0])
ApplyLaw(op, x) ==
  CASE op.t = "Turn" -> IF x.f \in Fixed THEN x ELSE [x EXCEPT !.loc = (@ + op.x) % T]
    [] op.t = "Nudge" -> Nudge(x)
    [] op.t = "Other" -> TLCEval(Law(x.f))
    [] op.t = "Family" -> TLCEval(Law(RndOf(Fams)))
    [] op.t = "Back" -> h[1].law
    [] OTHER -> x
Rec(op, x) == [op |-> op, law |-> x, xs |-> TLCEval([i \in 1..6 |-> IF Rnd(0, 5) = 0 THEN RndOf({0, T, x.loc, (x.loc + HalfT) % T, T - 1}) ELSE AWrap(IF Rnd(0, 1) = 0 THEN x.loc + Rnd(-40000000, 40000000) ELSE Rnd(0, T - 1))]),
               qs |-> TLCEval([i \in 1..5 |-> IF Rnd(0, 5) = 0 THEN RndOf({0, 1000000, 500000, 1, 999999}) ELSE Rnd(0, 1000000)])]
New == \E f \in {RndOf(Fams)} : \E x \in {Law(f)} : d' = x /\ h' = <<Rec([t |-> "New", x |-> 0], x)>>
Step == \E o \in {RndLawOp(d)} : \E x \in {ApplyLaw(o, d)} : d' = x /\ h' = Append(h, Rec(o, x))
Init == d = <<>> /\ h = <<>>
Next == /\ Len(h) < Depth
        /\ IF h = <<>> THEN New ELSE Step
        /\ Len(h') = Depth => PrintT(<<"@@H", ToJson(h')>>)
Spec == Init /\ [][Next]_vars
=============================================================================
