------------------------------- MODULE Sample -------------------------------
(***************************************************************************)
(* A sample of directions as a state machine.                              *)
(*                                                                         *)
(* The state is the data a user holds: a sequence of readings (angles in   *)
(* millionths of a degree, not necessarily wrapped) with frequencies.  The *)
(* actions are the things that happen to data between two analyses: it is  *)
(* turned, mirrored, re-recorded with other multiples of a turn, permuted, *)
(* grouped, expanded, extended or shortened.  What a statistic must do     *)
(* under each action is a law (see the *Laws operators of Descr, Unif, ...)*)
(***************************************************************************)
EXTENDS Trig, TLC, SequencesExt, FiniteSets

IAbs(x) == IF x < 0 THEN -x ELSE x
Lim == 1500000000                            \* readings stay within +-Lim

\* (not named Sum: modules that extend this one define their own)
RECURSIVE ISumFrom(_, _)
ISumFrom(s, k) == IF k > Len(s) THEN 0 ELSE s[k] + ISumFrom(s, k + 1)
ISum(s) == ISumFrom(s, 1)

Clip(x) == IF x > Lim \/ x < -Lim THEN AWrap(x) ELSE x
Size(d) == ISum(d.w)                         \* number of observations
Lines(d) == Len(d.a)

Unit(n) == [i \in 1..n |-> 1]
Sample1(a) == [a |-> a, w |-> Unit(Len(a))]

RECURSIVE ExpandFrom(_, _)
ExpandFrom(d, k) ==
  IF k > Len(d.a) THEN <<>> ELSE [i \in 1..d.w[k] |-> d.a[k]] \o ExpandFrom(d, k + 1)
Expanded(d) == ExpandFrom(d, 1)              \* one reading per observation

SwapS(s, i, j) == [k \in DOMAIN s |-> IF k = i THEN s[j] ELSE IF k = j THEN s[i] ELSE s[k]]

Apply(op, d) ==
  CASE op.t = "New"     -> d
    [] op.t = "Rotate"  -> [d EXCEPT !.a = [i \in DOMAIN d.a |-> Clip(d.a[i] + op.x)]]
    [] op.t = "Reflect" -> [d EXCEPT !.a = [i \in DOMAIN d.a |-> -d.a[i]]]
    [] op.t = "Turn"    -> [d EXCEPT !.a[op.i] = Clip(@ + op.x * T)]
    [] op.t = "Wrap"    -> [d EXCEPT !.a = [i \in DOMAIN d.a |-> AWrap(d.a[i])]]
    [] op.t = "Swap"    -> [a |-> SwapS(d.a, op.i, op.j), w |-> SwapS(d.w, op.i, op.j)]
    [] op.t = "Reverse" -> [a |-> Reverse(d.a), w |-> Reverse(d.w)]
    [] op.t = "Split"   -> IF d.w[op.i] < 2 THEN d
                           ELSE [a |-> Append(d.a, d.a[op.i]), w |-> Append([d.w EXCEPT ![op.i] = @ - 1], 1)]
    [] op.t = "Expand"  -> IF Size(d) > 120 THEN d ELSE Sample1(Expanded(d))
    [] op.t = "Scale"   -> IF Size(d) > 400 THEN d ELSE [d EXCEPT !.w = [i \in DOMAIN d.w |-> d.w[i] * op.x]]
    [] op.t = "Insert"  -> [a |-> Append(d.a, op.x), w |-> Append(d.w, 1)]
    [] op.t = "Remove"  -> IF Len(d.a) < 2 THEN d
                           ELSE [a |-> SubSeq(d.a, 1, op.i - 1) \o SubSeq(d.a, op.i + 1, Len(d.a)),
                                 w |-> SubSeq(d.w, 1, op.i - 1) \o SubSeq(d.w, op.i + 1, Len(d.w))]

\* actions that leave every direction with its frequency
Relabel == {"Turn", "Wrap", "Swap", "Reverse", "Split", "Expand"}

(***************************************************************************)
(* Samples to start from: by size, by spread and by the kind of reading.   *)
(***************************************************************************)
Rnd(lo, hi) == RandomElement(lo..hi)
RndOf(S) == RandomElement(S)

\* one reading of the given kind around centre c
RndAngle(kind, c) ==
  CASE kind = "any"    -> Rnd(0, T - 1)
    [] kind = "narrow" -> AWrap(c + Rnd(-15000000, 15000000))
    [] kind = "half"   -> AWrap(c + Rnd(-60000000, 60000000))
    [] kind = "tight"  -> AWrap(c + Rnd(-900000, 900000))
    [] kind = "wide"   -> AWrap(c + Rnd(-50000000, 50000000) + Rnd(-50000000, 50000000) + Rnd(-50000000, 50000000))
    [] kind = "deg5"   -> 5000000 * Rnd(0, 71)
    [] kind = "deg"    -> 1000000 * Rnd(0, 359)
    [] kind = "deg30c" -> AWrap(30000000 * (c \div 30000000) + 30000000 * Rnd(-2, 2))
    [] kind = "two"    -> AWrap(c + 180000000 * Rnd(0, 1) + Rnd(-12000000, 12000000))
    [] kind = "raw"    -> AWrap(c + Rnd(-80000000, 80000000)) + T * Rnd(-2, 2)
    [] kind = "seam"   -> AWrap(Rnd(-20000000, 20000000))
    [] kind = "fine"   -> 10000 * Rnd(0, 35999)

RndSample(kind, n, wkind) ==
  LET c == TLCEval(Rnd(0, T - 1))
      wm == CASE wkind = 0 -> 1 [] wkind = 1 -> 3 [] OTHER -> 12
  IN TLCEval([a |-> [i \in 1..n |-> RndAngle(kind, c)], w |-> [i \in 1..n |-> IF wkind = 0 THEN 1 ELSE Rnd(1, wm)]])

\* equally spaced bins with frequencies, some of them empty; mode 1 has one peak
RndGrouped(m, off, mode) ==
  LET c == TLCEval(Rnd(1, m)) IN
  TLCEval([a |-> [i \in 1..m |-> (T \div m) * (i - 1) + off],
           w |-> [i \in 1..m |->
                   IF mode = 0 THEN Rnd(0, 6) + (IF i = 1 THEN 1 ELSE 0)
                   ELSE LET k == (i - c) % m  j == IF 2 * k > m THEN m - k ELSE k
                            g == (10 * (m - 3 * j)) \div m IN
                        IF g > 0 THEN g + Rnd(0, 3) ELSE IF Rnd(0, 3) = 0 THEN 1 ELSE 0]])
GroupSizes == {5, 6, 8, 9, 12, 15, 18, 24, 36}

RndOp(d, names) ==
  LET n == Len(d.a)  t == TLCEval(RndOf(names)) IN
  TLCEval([t |-> t,
   x |-> CASE t = "Rotate" -> Rnd(-T, T) [] t = "Turn" -> Rnd(-2, 2) [] t = "Scale" -> Rnd(2, 4)
           [] t = "Insert" -> Rnd(0, T - 1) [] OTHER -> 0,
   i |-> Rnd(1, n), j |-> Rnd(1, n)])
NoOp == [t |-> "New", x |-> 0, i |-> 1, j |-> 1]
=============================================================================
