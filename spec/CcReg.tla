-------------------------------- MODULE CcReg --------------------------------
(***************************************************************************)
(* Regression of a direction (b) on a direction (a): least squares of      *)
(* cos b and sin b on 1, cos ka, sin ka (k <= order).                      *)
(***************************************************************************)
EXTENDS Assoc
\* AMul only for small multiples
Harm(a, k, F(_)) == [i \in DOMAIN a |-> F(AMul(a[i], k))]
Cols(a, ord) == TLCEval(<<[i \in DOMAIN a |-> FOne]>> \o [k \in 1..ord |-> Harm(a, k, FCos)] \o [k \in 1..ord |-> Harm(a, k, FSin)])
AxpyF(y, c, x) == TLCEval([i \in DOMAIN y |-> FSub(y[i], FMul(c, x[i]))])
\* remove from y its projection on every column of Q (orthogonal), twice for accuracy
Clean(y, Q) == FoldLeft(LAMBDA v, q : AxpyF(v, FDiv(DotF(v, q), DotF(q, q)), q), FoldLeft(LAMBDA v, q : AxpyF(v, FDiv(DotF(v, q), DotF(q, q)), q), y, Q), Q)
\* orthogonal basis of the columns; columns that hardly add anything end the construction with FALSE
GramS(X) == FoldLeft(LAMBDA acc, c : IF ~acc.ok THEN acc
                       ELSE LET v == Clean(c, acc.Q) IN
                            IF FLt(DotF(v, v), FMul(FDec(2, -3), DotF(c, c))) \/ ~FLt(FDec(1, -3), DotF(c, c)) THEN [acc EXCEPT !.ok = FALSE] ELSE [acc EXCEPT !.Q = Append(@, v)],
                     [ok |-> TRUE, Q |-> <<>>], X)
Resp(b, F(_)) == [i \in DOMAIN b |-> F(AWrap(b[i]))]
MinusF(x, y) == [i \in DOMAIN x |-> FSub(x[i], y[i])]
\* the fit: residual vectors, fitted vectors, lengths
FitOf(a, b, ord) ==
  LET g == TLCEval(GramS(Cols(a, ord))) yc == TLCEval(Resp(b, FCos)) ys == TLCEval(Resp(b, FSin)) IN
  IF ~g.ok THEN [ok |-> FALSE]
  ELSE LET rc == Clean(yc, g.Q) rs == Clean(ys, g.Q) fc == TLCEval(MinusF(yc, rc)) fs == TLCEval(MinusF(ys, rs)) IN
       TLCEval([ok |-> TRUE, Q |-> g.Q, rc |-> rc, rs |-> rs, fc |-> fc, fs |-> fs,
                rho2 |-> FDiv(FAdd(DotF(fc, fc), DotF(fs, fs)), FInt(Len(a)))])
\* reduction of the residual sum of squares by the next harmonic, relative to it, times the degrees of freedom
NextHarm(a, ord, Q) == GramS(Q \o <<Harm(a, ord + 1, FCos), Harm(a, ord + 1, FSin)>>)
HighStat(f, a, ord, r) ==
  LET g == NextHarm(a, ord, f.Q) n == Len(a) m == Len(f.Q) IN
  LET q1 == g.Q[m + 1] q2 == g.Q[m + 2]
      gain == FAdd(FDiv(FSq(DotF(r, q1)), DotF(q1, q1)), FDiv(FSq(DotF(r, q2)), DotF(q2, q2)))
      adj == IF n - (2 * ord + 1) < 1 THEN 1 ELSE n - (2 * ord + 1) IN
  FDiv(FMul(FInt(adj), gain), DotF(r, r))
\* any columns X and any further columns W
FitCols(X, b) ==
  LET g == TLCEval(GramS(X)) yc == TLCEval(Resp(b, FCos)) ys == TLCEval(Resp(b, FSin)) IN
  IF ~g.ok THEN [ok |-> FALSE] ELSE TLCEval([ok |-> TRUE, Q |-> g.Q, rc |-> Clean(yc, g.Q), rs |-> Clean(ys, g.Q)])
\* reduction of the residual sum of squares by the columns W, relative to it
GainBy(Q, W, r) ==
  LET g == TLCEval(GramS(Q \o W)) IN
  IF ~g.ok THEN [ok |-> FALSE]
  ELSE [ok |-> TRUE, v |-> FDiv(FoldLeft(LAMBDA s, j : FAdd(s, FDiv(FSq(DotF(r, g.Q[j])), DotF(g.Q[j], g.Q[j]))), FZero, [j \in DOMAIN W |-> Len(Q) + j]), DotF(r, r))]
FDirOf(f, i) == IF FLt(FHyp(f.fc[i], f.fs[i]), FDec(1, -3)) THEN ANaN ELSE AAtan2(f.fs[i], f.fc[i])
=============================================================================
