-------------------------------- MODULE Pairs --------------------------------
(***************************************************************************)
(* Paired observations (a, b, x): two directions and a number, and edits   *)
(* that keep or change their association.                                  *)
(***************************************************************************)
EXTENDS Anova
PApply(op, d) ==
  CASE op.t = "New"      -> d
    [] op.t = "RotA"     -> [d EXCEPT !.a = [i \in DOMAIN @ |-> Clip(@[i] + op.x)]]
    [] op.t = "RotB"     -> [d EXCEPT !.b = [i \in DOMAIN @ |-> Clip(@[i] + op.x)]]
    [] op.t = "RefA"     -> [d EXCEPT !.a = [i \in DOMAIN @ |-> -@[i]]]
    [] op.t = "RefB"     -> [d EXCEPT !.b = [i \in DOMAIN @ |-> -@[i]]]
    [] op.t = "TurnA"    -> [d EXCEPT !.a[op.i] = Clip(@ + op.x * T)]
    [] op.t = "TurnB"    -> [d EXCEPT !.b[op.i] = Clip(@ + op.x * T)]
    [] op.t = "SwapP"    -> [a |-> SwapS(d.a, op.i, op.j), b |-> SwapS(d.b, op.i, op.j), x |-> SwapS(d.x, op.i, op.j)]
    [] op.t = "RevP"     -> [a |-> Reverse(d.a), b |-> Reverse(d.b), x |-> Reverse(d.x)]
    [] op.t = "Exchange" -> [a |-> d.b, b |-> d.a, x |-> d.x]
    [] op.t = "ShiftX"   -> [d EXCEPT !.x = [i \in DOMAIN @ |-> @[i] + op.x]]
    [] op.t = "ScaleX"   -> [d EXCEPT !.x = [i \in DOMAIN @ |-> @[i] * op.x]]
    [] op.t = "InsertP"  -> [a |-> Append(d.a, op.x), b |-> Append(d.b, AWrap(op.x + op.i * 1000000)), x |-> Append(d.x, op.j)]
    [] op.t = "RemoveP"  -> IF Len(d.a) < 2 THEN d
                            ELSE LET cut(s) == SubSeq(s, 1, op.i - 1) \o SubSeq(s, op.i + 1, Len(s)) IN [a |-> cut(d.a), b |-> cut(d.b), x |-> cut(d.x)]
PKeeps == {"RotA", "RotB", "RefA", "RefB", "TurnA", "TurnB", "SwapP", "RevP", "Exchange", "ShiftX", "ScaleX"}
\* edits that only rename: same directions, same numbers, another order
PSame == {"TurnA", "TurnB", "SwapP", "RevP"}

RndPairs(kind, n, mode, xmode) ==
  LET c == TLCEval(RndOf(0..(T - 1))) e == TLCEval(Rnd(0, T - 1)) s == TLCEval(RndOf({0, 1000000, 20000000, 60000000}))
      a == TLCEval([i \in 1..n |-> RndAngle(kind, c)])
      b == TLCEval([i \in 1..n |-> CASE mode = "free" -> RndAngle(kind, e)
                                     [] mode = "same" -> AWrap(AWrap(a[i]) + e + Rnd(-s, s))
                                     [] mode = "mirror" -> AWrap(e - AWrap(a[i]) + Rnd(-s, s))
                                     [] OTHER -> AWrap(2 * AWrap(a[i]) + e + Rnd(-s, s))])
      x == TLCEval([i \in 1..n |-> CASE xmode = "free" -> Rnd(-1000, 1000)
                                     [] xmode = "few" -> Rnd(-2, 2)
                                     [] OTHER -> (Cos8(AWrap(AWrap(a[i]) + e)) \div 100000) + Rnd(-(s \div 100000), s \div 100000)])
  IN TLCEval([a |-> a, b |-> b, x |-> x])
RndPOp(d, names) ==
  LET n == Len(d.a) t == TLCEval(RndOf(names)) IN
  TLCEval([t |-> t, x |-> CASE t \in {"RotA", "RotB"} -> Rnd(-T, T) [] t \in {"TurnA", "TurnB"} -> Rnd(-2, 2) [] t = "InsertP" -> Rnd(0, T - 1)
                           [] t = "ShiftX" -> Rnd(-500, 500) [] t = "ScaleX" -> RndOf({-2, -1, 2, 3}) [] OTHER -> 0,
           i |-> Rnd(1, n), j |-> Rnd(1, n)])
=============================================================================
