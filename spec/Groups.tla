------------------------------- MODULE Groups -------------------------------
(***************************************************************************)
(* Several samples as one state, and what can happen to them together.     *)
(***************************************************************************)
EXTENDS Interval

GMap(S, F(_)) == [k \in DOMAIN S |-> F(S[k])]
One(t, x, i, j) == [t |-> t, x |-> x, i |-> i, j |-> j]
\* operations on one sample are those of Sample; on all samples together:
GApply(op, S) ==
  CASE op.t = "New"        -> S
    [] op.t = "RotateAll"  -> [k \in DOMAIN S |-> Apply(One("Rotate", op.x, 1, 1), S[k])]
    [] op.t = "ReflectAll" -> [k \in DOMAIN S |-> Apply(One("Reflect", 0, 1, 1), S[k])]
    [] op.t = "SwapGroups" -> SwapS(S, op.g, op.h)
    [] OTHER -> [S EXCEPT ![op.g] = Apply(One(op.t, op.x, op.i, op.j), @)]
\* the reference direction moves with the samples
GAngle(op, v) == IF op.t = "RotateAll" THEN AWrap(v + op.x) ELSE IF op.t = "ReflectAll" THEN AWrap(-v) ELSE v
\* actions that leave every sample with its directions and frequencies
GKeeps == {"RotateAll", "ReflectAll", "SwapGroups", "Turn", "Wrap", "Swap", "Reverse", "Split", "Expand"}

Pool(S) == [a |-> FlattenSeq([k \in DOMAIN S |-> S[k].a]), w |-> FlattenSeq([k \in DOMAIN S |-> S[k].w])]
Sizes_(S) == [k \in DOMAIN S |-> Size(S[k])]
Untied(a) == Cardinality({AWrap(a[i]) : i \in DOMAIN a}) = Len(a)

\* starting states: centres shared, near or free
RndGroups(k, kind, sizes, wk, mode) ==
  LET c == TLCEval(RndOf(0..(T - 1)))
      ctr(q) == CASE mode = "shared" -> c [] mode = "near" -> AWrap(c + Rnd(-40000000, 40000000)) [] mode = "free" -> Rnd(0, T - 1)
      wm == CASE wk = 0 -> 1 [] wk = 1 -> 3 [] OTHER -> 8
      mk(q) == LET z == TLCEval(ctr(q)) n == TLCEval(RndOf(sizes)) IN
               TLCEval([a |-> [i \in 1..n |-> RndAngle(kind, z)], w |-> [i \in 1..n |-> IF wk = 0 THEN 1 ELSE Rnd(1, wm)]])
  IN TLCEval([q \in 1..k |-> mk(q)])
RndGOp(S, names) ==
  LET g == TLCEval(RndOf(DOMAIN S)) t == TLCEval(RndOf(names)) n == Len(S[g].a) IN
  TLCEval([t |-> t, x |-> CASE t = "RotateAll" -> Rnd(-T, T) [] t = "Turn" -> Rnd(-2, 2) [] t = "Insert" -> Rnd(0, T - 1) [] OTHER -> 0,
           g |-> g, h |-> RndOf(DOMAIN S), i |-> Rnd(1, n), j |-> Rnd(1, n)])
GNoOp == [t |-> "New", x |-> 0, g |-> 1, h |-> 1, i |-> 1, j |-> 1]
=============================================================================
