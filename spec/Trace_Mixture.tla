---------------------------- MODULE Trace_Mixture ----------------------------
(* Recorded mixture fits against Mixture (C20). *)
EXTENDS Mixture, TraceBase
VARIABLES l, d, o
vars == <<l, d, o>>
Fam(r) == CASE r.model = "MovM" -> "vonmises" [] r.model = "MoKJ" -> "katojones" [] OTHER -> r.fam
\* parameters inside the family
ValidC(c) ==
  /\ c.loc # ANaN
  /\ \A i \in DOMAIN c.p : ~FIsNaN(c.p[i])
  /\ CASE c.f = "vonmises" -> FLe(FZero, c.p[1]) /\ FLe(c.p[1], FDec(2, 16))
       [] c.f = "cardioid" -> FLe(FZero, c.p[1]) /\ FLe(c.p[1], FDec(50000001, -8))
       [] c.f \in {"wrapnorm", "wrapcauchy"} -> FLe(FZero, c.p[1]) /\ FLe(c.p[1], FOne)
       [] c.f = "cartwright" -> FLt(FZero, c.p[1])
       [] OTHER -> FLe(FZero, c.p[1]) /\ FLt(c.p[1], FOne) /\ FLe(FZero, c.p[2]) /\ FLt(c.p[2], FOne)
ValidM(m, K) == Len(m.p) = K /\ Len(m.c) = K /\ (\A k \in 1..K : FLe(FZero, m.p[k]) /\ ValidC(m.c[k])) /\ FNear(FSum(m.p), FOne, FDec(1, -6))
\* components whose density is steep are known to fewer digits
Steep(c) == CASE c.f = "vonmises" -> c.p[1]
              [] c.f = "wrapcauchy" -> FDiv(FOne, FSub(FOne, c.p[1]))
              [] c.f = "wrapnorm" -> FDiv(FOne, FMax(FSub(FOne, c.p[1]), FDec(1, -9)))
              [] c.f = "katojones" -> FDiv(FOne, FMax(FSub(FOne, c.p[2]), FDec(1, -9)))
              [] OTHER -> FOne
Tame(m) == \A k \in DOMAIN m.c : FLt(Steep(m.c[k]), FInt(300)) /\ (m.c[k].f = "cardioid" => FLt(m.c[k].p[1], FDec(4999, -4)))
\* densities that almost vanish at a reading are differences of large terms
Thin(m, xs) == m.c[1].f \in {"cardioid", "katojones"} /\ \E k \in DOMAIN m.c, i \in DOMAIN xs : FLt(Core(m.c[k], FZero, AWrap(xs[i] - m.c[k].loc)), FDec(1, -3))
DTol(m) == IF m.c[1].f = "katojones" THEN FDec(1, -5) ELSE FDec(1, -8)
MTolOf(m) == FMul(FDec(4, -8), FAdd(FInt(10), FoldLeft(LAMBDA a, c : FMax(a, Steep(c)), FZero, m.c)))
RowsNear(G, H, tol) == Len(G) = Len(H) /\ \A k \in DOMAIN H : Len(G[k]) = Len(H[k]) /\ \A i \in DOMAIN H[k] : FClose(G[k][i], H[k][i], tol)
MaxAt(C, lab, tol) == lab + 1 \in DOMAIN C /\ \A k \in DOMAIN C : FLe(C[k], FAdd(C[lab + 1], tol))
DirOf(m, c, s, h) == FLt(h, FDec(1, -6)) \/ (m # ANaN /\ FNear(FMul(h, FCos(AWrap(m))), c, FDec(2, -6)) /\ FNear(FMul(h, FSin(AWrap(m))), s, FDec(2, -6)))
\* how far a step may fall: MovM approximates the concentration, and the optimiser stops early at the cardioid's bound
ClimbTol(r) == IF r.model = "MovM" THEN FDec(2, -3) ELSE IF r.model = "MoCD:cardioid" THEN FDec(5, -3) ELSE FDec(2, -5)
\* one EM step m -> n on the data
StepOk(r, x, m, n) ==
  LET J == LnJoint(m, x.a) G == Resp(J) W == Weights(G)
      tol == FMul(FInt(4), MTolOf(m))
      nx == Len(x.a)
  IN << <<"em-weights", \A k \in DOMAIN W : FClose(n.p[k], W[k], FAdd(tol, FDec(2, -6)))>>,
        <<"em-mean", r.model = "MovM" => \A k \in DOMAIN W : FLt(W[k], FDec(1, -4)) \/
            LET v == WMoment(G[k], x.a) h == FHyp(v.c, v.s) IN DirOf(n.c[k].loc, v.c, v.s, h)>>,
        <<"em-kappa", r.model = "MovM" => \A k \in DOMAIN W : FLt(W[k], FDec(1, -4)) \/
            LET v == WMoment(G[k], x.a) h == FHyp(v.c, v.s) IN
            FLt(FDec(998, -3), h) \/ FRel(n.c[k].p[1], FMax(KappaHat(h), FDec(1, -3)), FMul(FDec(1, -5), FAdd(FOne, FDiv(FOne, FSub(FOne, h)))), FDec(2, -5))>>,
        <<"em-refit-no-worse", r.model # "MovM" => \A k \in DOMAIN W :
            FLe(QComp(G[k], m.c[k], x.a), FAdd(QComp(G[k], n.c[k], x.a), FMul(FInt(nx), ClimbTol(r))))>>,
        <<"em-likelihood-climbs", FLe(LogLik(J), FAdd(LogLik(LnJoint(n, x.a)), FMul(FInt(nx), ClimbTol(r))))>> >>
Def(r, x) ==
  LET q == r.o K == r.K nx == Len(x.a) IN
  << <<"no-exception", \A i \in DOMAIN r.why : r.why[i][2] = "RuntimeError" /\ r.model \notin {"MovM", "MoKJ"}>>, <<"refuses", q.bad = 0>> >> \o
  (IF r.exc # <<>> THEN <<>> ELSE
   << <<"repeatable", q.rep = 1>>,
      <<"valid", ValidM(q.fin, K) /\ \A s \in DOMAIN q.states : ValidM(q.states[s], K)>>,
      <<"units", r.model = "MoKJ" \/ r.model = "MoCD:wrapnorm" \/ LET a == q.unitless[1] b == q.states[1] IN \A k \in 1..K : FNear(a.p[k], b.p[k], FDec(1, -5)) /\ ANear(a.c[k].loc, b.c[k].loc, 2000)>>,
      <<"history-length", Len(q.nll) >= 1 /\ Len(q.nll) <= r.L>>,
      <<"converged-flag", (q.conv = 1) = (q.convn # -1) /\ (q.conv = 1 => q.convn = Len(q.nll) /\ q.convn > r.burnin) /\ (q.conv = 0 => Len(q.nll) = r.L)>>,
      <<"history-falls", \A i \in 2..Len(q.nll) : FLe(q.nll[i], FAdd(q.nll[i - 1], FMul(FInt(nx), ClimbTol(r))))>> >> \o
   (IF ~ValidM(q.fin, K) THEN <<>> ELSE
    LET J == LnJoint(q.fin, x.a) G == Resp(J) ll == LogLik(J) tm == Tame(q.fin)
        tol == FMul(FInt(4), MTolOf(q.fin))
        Jn == LnJoint(q.fin, q.new) Gn == Resp(Jn) Dn == LnMix(Jn)
        btol == FMul(FInt(4 * nx), MTolOf(q.fin))
        lo == IF r.model = "MoKJ" THEN q.nll[Len(q.nll)] ELSE FZero
    IN IF ~tm \/ Thin(q.fin, x.a) THEN <<>> ELSE
    << <<"responsibilities", RowsNear(q.gam, G, tol)>>,
       <<"labels", Len(q.lab) = nx /\ \A i \in 1..nx : MaxAt(Col(G, i), q.lab[i], tol)>>,
       <<"bic", FClose(q.bic, Bic(ll, nx, K, NPar(q.fin.c[1].f)), FAdd(btol, FMul(FAbs(ll), FDec(1, -7))))>>,
       <<"density", Len(q.dens) = Len(q.new) /\ \A i \in DOMAIN q.new : FRel(q.dens[i], FExp(Dn[i]), FMul(tol, FTwo), DTol(q.fin))>>,
       <<"density-grid", Len(q.grid) = q.gridn \div 50 /\ LET Jg == LnMix(LnJoint(q.fin, [i \in DOMAIN q.grid |-> (i - 1) * 50 * (T \div q.gridn)])) IN
             \A i \in DOMAIN q.grid : FRel(q.grid[i], FExp(Jg[i]), FMul(tol, FTwo), DTol(q.fin))>>,
       <<"proba", Thin(q.fin, q.new) \/ RowsNear(q.proba, Gn, tol)>>,
       <<"predict", Thin(q.fin, q.new) \/ \A i \in DOMAIN q.new : MaxAt(Col(Gn, i), q.pred[i], tol)>>,
       <<"compute_gamma", r.model = "MovM" => RowsNear(q.cg, Gn, tol)>>,
       <<"compute_nLL", r.model = "MovM" => FClose(q.cn, FNeg(ll), FAdd(btol, FMul(FAbs(ll), FDec(1, -7))))>>,
       <<"score_samples", (r.model \notin {"MovM", "MoKJ"} /\ ~Thin(q.fin, q.new)) => \A i \in DOMAIN q.new : FClose(q.ss[i], Dn[i], FAdd(FMul(tol, FTwo), FMul(FAbs(Dn[i]), FDec(1, -5))))>>,
       <<"score", r.model \notin {"MovM", "MoKJ"} => FClose(q.sc, FDiv(ll, FInt(nx)), FAdd(tol, FDec(1, -6))) /\ q.pm = 1>>,
       <<"history-end", r.model = "MoKJ" => FClose(lo, FNeg(ll), FAdd(btol, FMul(FAbs(ll), FDec(1, -7))))>>,
       <<"history-is-the-likelihood", r.model # "MoKJ" => \A s \in 1..(Len(q.states) - 1) : s + 1 > Len(q.nll) \/ ~Tame(q.states[s]) \/ Thin(q.states[s], x.a) \/
             LET ls == LogLik(LnJoint(q.states[s], x.a)) IN FClose(q.nll[s + 1], FNeg(ls), FAdd(FMul(FInt(4 * nx), MTolOf(q.states[s])), FMul(FAbs(ls), FDec(1, -7))))>> >>) \o
   (IF \E s \in DOMAIN q.states : ~ValidM(q.states[s], K) \/ ~Tame(q.states[s]) \/ Thin(q.states[s], x.a) THEN <<>>
    ELSE FlattenSeq([s \in 1..(Len(q.states) - 1) |-> StepOk(r, x, q.states[s], q.states[s + 1])])))
\* what turning or mirroring the data does to the fit from the same seed
SameP(v, w) == Len(v) = Len(w) /\ \A i \in DOMAIN v : FRel(v[i], w[i], FDec(1, -3), FDec(1, -4))
Law(r, p) ==
  IF r.op.t \notin {"Rotate", "Reflect", "Turn", "Wrap"} \/ r.exc # <<>> \/ r.kind \in {"deg5", "deg", "deg30c"} THEN <<>>
  ELSE IF r.model = "MoKJ" /\ r.op.t \in {"Rotate", "Reflect"} THEN <<>>
  ELSE LET a == p.states[1] b == r.o.states[1] IN
    IF ~Tame(a) THEN <<>> ELSE
    << <<"law-weights", SameP(a.p, b.p)>>,
       <<"law-parameters", \A k \in DOMAIN a.c : SameP(a.c[k].p, b.c[k].p)>>,
       <<"law-locations", \A k \in DOMAIN a.c : FLt(a.c[k].p[1], FDec(1, -2)) \/ ANear(b.c[k].loc, MovedDir(r.op, a.c[k].loc), IF r.model = "MovM" THEN 3000 ELSE 200000)>>,
       <<"law-likelihood", FRel(p.nll[1], r.o.nll[1], FDec(1, -6), FDec(1, -5))>> >>
Init == l = 1 /\ d = <<>> /\ o = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E r \in {Trace[l]} : \E x \in {IF r.op.t = "New" THEN r.data ELSE Apply(r.op, d)} :
           /\ d' = x
           /\ o' = [o |-> r.o, ok |-> r.exc = <<>>]
           /\ \E cl \in {<< <<"data", x = r.data>> >> \o Def(r, x) \o (IF r.op.t = "New" \/ ~o.ok THEN <<>> ELSE Law(r, o.o))} : Report(l, cl)
Spec == Init /\ [][Next]_vars
Accepted == AllConsumed
=============================================================================
