--------------------------- MODULE Trace_Direction ---------------------------
(* Recorded tests against a direction (C11). State: the sample and the direction. *)
EXTENDS Direction, TraceBase
VARIABLES l, d, ang, o
vars == <<l, d, ang, o>>
MoveDir(op, g) == IF op.t = "Rotate" THEN AWrap(g + op.x) ELSE IF op.t = "Reflect" THEN -g ELSE g

PClose(p, x) == FRel(p, x, FDec(1, -4), FDec(5, -6))
SClose(p, x) == FRel(p, x, FDec(5, -6), FDec(5, -6))
InCI(g, iv) == AInArc(AWrap(g), iv[1], iv[2])
AtEdge(g, iv) == ADist(g, iv[1]) <= 3 \/ ADist(g, iv[2]) <= 3

Def(r, x, g) ==
  LET q == r.o e == TLCEval(Expanded(x)) n == Len(e) s == Summary(x)
      V == VStat(s, g) D == TLCEval(SDevs(e, g)) C == Outside(e, g)
      opp == \E i \in DOMAIN e : ADist(e[i], g) >= HalfT - 3
  IN <<
    <<"no-exception", r.exc = <<>> >>,
    <<"V", FNear(q.V, V, FDec(1, -5))>>,
    <<"V-u", FNear(q.Vu, VU(n, V), FDec(1, -5))>>,
    <<"V-p", PClose(q.Vp, NormSf(VU(n, V)))>>,
    <<"V-expanded", FNear(q.Ve, q.V, FDec(1, -5)) /\ PClose(q.Vpe, q.Vp)>>,
    <<"V-summary", s.m1 = ANaN \/ (FNear(q.Vs, q.V, FDec(1, -5)) /\ PClose(q.Vps, q.Vp))>>,
    <<"one-sample", q.ci = <<>> \/ AtEdge(g, q.ci) \/ (q.rej = IF InCI(g, q.ci) THEN 0 ELSE 1)>>,
    <<"one-sample-interval", q.ci = <<>> \/ q.rci = q.ci>>,
    <<"one-sample-refused", (q.ci = <<>>) = (q.rej = 2)>>,
    <<"one-sample-given", \A i \in DOMAIN r.ivs : AtEdge(g, r.ivs[i]) \/ q.riv[i] = (IF InCI(g, r.ivs[i]) THEN 0 ELSE 1)>>,
    <<"one-sample-angle", ANear(q.rang, g, 1)>>,
    <<"batschelet-count", OnEdge(e, g) \/ q.C = C>>,
    <<"batschelet-p", PClose(q.Cp, BinomTwoHalf(n, q.C)) /\ q.C >= 0 /\ q.C <= n>>,
    <<"binomial-counts", OnAxis(e, g) \/ (q.n1 = Before(e, g) /\ q.n2 = After(e, g))>>,
    <<"binomial-n", q.ne = q.n1 + q.n2 /\ q.ne <= n>>,
    <<"binomial-p", PClose(q.bp, IF q.ne = 0 THEN FOne ELSE BinomTwoHalf(q.ne, q.n1))>>,
    <<"symmetry", opp \/ D = <<>> \/ n < 2 \/ FNear(q.ss, SignStat(D), FDec(1, -6))>>,
    <<"symmetry-p", opp \/ D = <<>> \/ n < 2 \/ n \in 25..50 \/ PClose(q.sp, SignP(n, D))>>,
    <<"symmetry-default", q.sdef = 1>>,
    <<"probabilities", \A v \in {q.Vp, q.Cp, q.bp} \cup (IF D = <<>> \/ n < 2 THEN {} ELSE {q.sp}) : FLe(FZero, v) /\ FLe(v, FOne)>>,
    <<"refuses", q.bad = 0>> >>

Law(r, p, x, g) ==
  IF r.op.t \notin {"Rotate", "Reflect", "Turn", "Wrap", "Swap", "Reverse", "Split", "Expand"} THEN <<>>
  ELSE LET q == r.o e == Expanded(x) opp == \E i \in DOMAIN e : ADist(e[i], g) >= HalfT - 3 IN <<
    <<"law-V", FNear(q.V, p.V, FDec(1, -5)) /\ PClose(q.Vp, p.Vp)>>,
    <<"law-batschelet", OnEdge(e, g) \/ (q.C = p.C /\ PClose(q.Cp, p.Cp))>>,
    <<"law-binomial", OnAxis(e, g) \/ ({q.n1, q.n2} = {p.n1, p.n2} /\ PClose(q.bp, p.bp))>>,
    <<"law-symmetry", opp \/ Len(e) < 2 \/ FIsNaN(p.sp) \/ (FNear(q.ss, p.ss, FDec(1, -6)) /\ PClose(q.sp, p.sp))>> >>

Init == l = 1 /\ d = <<>> /\ ang = 0 /\ o = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E r \in {Trace[l]} : \E x \in {IF r.op.t = "New" THEN r.data ELSE Apply(r.op, d)} :
           \E g \in {IF r.op.t = "New" THEN r.ang ELSE MoveDir(r.op, ang)} :
           /\ d' = x
           /\ ang' = g
           /\ o' = r.o
           /\ \E cl \in {<< <<"data", x = r.data /\ g = r.ang>> >> \o Def(r, x, g) \o (IF r.op.t = "New" THEN <<>> ELSE Law(r, o, x, g))} : Report(l, cl)
Spec == Init /\ [][Next]_vars
Accepted == AllConsumed
=============================================================================
