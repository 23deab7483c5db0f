----------------------------- MODULE Trace_Unif -----------------------------
(* Recorded tests of uniformity: statistics and analytic p-values (C09). *)
EXTENDS Unif, TraceBase
VARIABLES l, d, o
vars == <<l, d, o>>

PClose(p, x) == FRel(p, x, FDec(1, -4), FDec(5, -6))
SClose(p, x) == FRel(p, x, FDec(2, -6), FDec(3, -6))
\* no two observations face each other (to rounding)
NoFacing(e) == \A i, j \in DOMAIN e : i < j => ADist(AWrap(e[i]), AWrap(e[j])) < HalfT - 3

Def(r, x) ==
  LET q == r.o e == TLCEval(Expanded(x)) n == Len(e) m == AjneM(e)
      s == Summary(x)
      kv == TLCEval(KuiperV(e)) ku == TLCEval(WatsonU2(e))
      gap == T - ArcRange(e)
      t == TLCEval(IF gap < 2000 THEN <<>> ELSE RangeTerms(n, gap))
      safe == t # <<>> /\ \A i \in DOMAIN t : FLe(t[i], FInt(20))
  IN <<
    <<"no-exception", r.exc = <<>> >>,
    <<"rayleigh-r", SClose(q.rr, s.r1)>>,
    <<"rayleigh-z", FRel(q.rz, RayleighZ(n, s.r1), FDec(1, -5), FDec(1, -6))>>,
    <<"rayleigh-p", PClose(q.rp, RayleighP(n, s.r1))>>,
    <<"rayleigh-expanded", SClose(q.rze, q.rz) /\ PClose(q.rpe, q.rp)>>,
    <<"rayleigh-summary", SClose(q.rzs, q.rz) /\ PClose(q.rps, q.rp)>>,
    <<"chisquare", Lines(x) < 2 \/ (SClose(q.chi, ChiStat(x.w)) /\ PClose(q.chip, ChiP(x.w)))>>,
    <<"ajne-count", IF Resolved(e, r.scale) THEN q.m = m ELSE ~NoFacing(e) \/ q.m >= m>>,
    <<"ajne-half", 0 <= q.m /\ q.m <= n>>,
    <<"ajne-p", PClose(q.mp, AjneP(n, q.m))>>,
    <<"ajne-A", IF n - 2 * q.m <= 0 THEN FIsInf(q.mA) ELSE SClose(q.mA, AjneA(n, q.m))>>,
    <<"kuiper", SClose(q.kv, kv)>>,
    <<"kuiper-p", FLe(q.kv, FDec(4, -1)) \/ PClose(q.kp, KuiperP(kv, n))>>,
    <<"watson", SClose(q.u2, ku)>>,
    <<"watson-p", FLe(q.u2, FDec(1, -3)) \/ PClose(q.up, WatsonP(ku))>>,
    <<"rao", SClose(q.ru, RaoU(e))>>,
    <<"rao-weighted", SClose(q.ruw, RaoU(e))>>,
    <<"rao-mode", q.rmode = "ungrouped" /\ q.rmodew = "grouped">>,
    <<"range", FNear(q.gr, FRadOf(T - gap), FDec(2, -6)) \/ (T - gap <= 3)>>,
    <<"range-p", ~safe \/ PClose(q.gp, RangeP(t))>>,
    <<"probabilities", \A v \in {q.rp, q.chip, q.mp, q.kp, q.up, q.rpv} : (v = q.chip /\ Lines(x) < 2) \/ (FLe(FZero, v) /\ FLe(v, FDec(10001, -4)))>>,
    <<"refuses", q.bad = 0>> >>

\* the zero direction, the sense and the bookkeeping do not matter
Law(r, p) ==
  IF r.op.t \notin {"Rotate", "Reflect", "Turn", "Wrap", "Swap", "Reverse", "Split", "Expand"} THEN <<>>
  ELSE LET q == r.o IN <<
    <<"law-rayleigh", FRel(q.rz, p.rz, FDec(1, -5), FDec(1, -6)) /\ PClose(q.rp, p.rp)>>,
    <<"law-kuiper", SClose(q.kv, p.kv) /\ PClose(q.kp, p.kp)>>,
    <<"law-watson", SClose(q.u2, p.u2) /\ PClose(q.up, p.up)>>,
    <<"law-rao", SClose(q.ru, p.ru)>>,
    <<"law-range", FNear(q.gr, p.gr, FDec(2, -6))>> >>

Init == l = 1 /\ d = <<>> /\ o = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E r \in {Trace[l]} : \E x \in {IF r.op.t = "New" THEN r.data ELSE Apply(r.op, d)} :
           /\ d' = x
           /\ o' = r.o
           /\ \E cl \in {<< <<"data", x = r.data>> >> \o Def(r, x) \o (IF r.op.t = "New" THEN <<>> ELSE Law(r, o))} : Report(l, cl)
Spec == Init /\ [][Next]_vars
Accepted == AllConsumed
=============================================================================
