--------------------------------- MODULE Dist ---------------------------------
(***************************************************************************)
(* The circular laws.                                                      *)
(*                                                                         *)
(* A law is a record [f |-> family, p |-> shape parameters (numbers),      *)
(* loc |-> location (an angle)].  Dens is its published density as a       *)
(* function of the offset from the location; the distribution function is  *)
(* its integral (Gauss-Legendre panels, finest around the location), and   *)
(* moments are integrals of the same density.  Nothing else is assumed:    *)
(* no series, table or normalising constant of the implementation.         *)
(***************************************************************************)
EXTENDS Special, SequencesExt, TLC

Families == {"circularuniform", "triangular", "cardioid", "cartwright", "wrapnorm", "wrapcauchy", "vonmises", "vonmises_flattopped",
             "jonespewsey", "jonespewsey_sineskewed", "jonespewsey_asym", "inverse_batschelet", "wrapstable", "katojones"}
Unlocated == {"circularuniform", "triangular"}
LOCAL IAbs(n) == IF n < 0 THEN -n ELSE n
FLn2 == FDec(69314718, -8)
\* cosine and sine of angle `e` plus f radians
Shifted(e, f) == AWrap(e + ARadToA(f))
Half2(e) == FSq(FSin(AWrap(e) \div 2))      \* sin^2(e/2)
HalfC2(e) == FSq(FCos(AWrap(e) \div 2))

\* exp(x) - 1 and ln(1 + x) for |x| <= 0.1
LOCAL FExpm1(x) == FoldLeft(LAMBDA a, k : FMul(FDiv(x, FInt(k)), FAdd(FOne, a)), FZero, <<8, 7, 6, 5, 4, 3, 2, 1>>)
LOCAL FLn1p(x) == FMul(x, FoldLeft(LAMBDA a, k : FSub(FDiv(FOne, FInt(k)), FMul(x, a)), FZero, <<13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1>>))
\* ln of the Jones-Pewsey kernel
LnJP(k, psi, e) ==
  IF FLt(FAbs(psi), FDec(1, -6)) THEN FMul(k, FCos(e))
  ELSE LET x == FMul(k, psi)
       IN IF FLt(FAbs(x), FDec(1, -1)) THEN FDiv(FAdd(x, FLn1p(FMul(Half2(e), FExpm1(FMul(FInt(-2), x))))), psi) ELSE FDiv(FAdd(x, FLn(FAdd(HalfC2(e), FMul(FExp(FMul(FInt(-2), x)), Half2(e))))), psi)
\* wrapped normal: sum over the windings
RECURSIVE WN(_, _, _)
LOCAL WN(z, s2, k) == IF k < -4 THEN FZero
  ELSE FAdd(FExp(FNeg(FDiv(FSq(FAdd(z, FMul(FInt(k), FTwoPi))), FMul(FTwo, s2)))), WN(z, s2, k - 1))
\* wrapped stable: its characteristic function at 1, 2, ...
LOCAL StTerms(p) ==
  LET al == p[1]  be == p[2]  ga == p[3]
      one == FLt(FAbs(FSub(al, FOne)), FDec(1, -6))
      ha == FRound(FMul(al, FInt(90000000)))
      dl == FSub(al, FOne)
      hx == FMul(FMul(FHalf, FPi), dl)
      hq == FSq(hx)
      \* tan(pi alpha / 2), exact next to alpha = 1
      tn == IF FLt(FAbs(dl), FDec(5, -2))
            THEN FNeg(FDiv(FOne, FMul(hx, FAdd(FOne, FMul(hq, FAdd(FDiv(FOne, FInt(3)), FMul(hq, FAdd(FDiv(FTwo, FInt(15)), FMul(hq, FDiv(FInt(17), FInt(315)))))))))))
            ELSE FDiv(FSin(ha), FCos(ha))
      N == LET z == FExp(FDiv(FLn(FInt(19)), al)) IN 2 + FRound(FDiv(z, ga))
  IN [k \in 1..N |->
       LET g == FMul(ga, FInt(k))
           ga2 == FExp(FMul(al, FLn(g)))
           m == IF one THEN FNeg(FMul(FMul(FDiv(FTwo, FPi), be), FMul(g, FLn(g))))
                ELSE LET y == FMul(dl, FLn(g)) IN FMul(FMul(be, tn), IF FLt(FAbs(y), FDec(1, -1)) THEN FMul(g, FExpm1(y)) ELSE FSub(ga2, g))
           w == FDiv(m, FTwoPi)
           fr == FSub(m, FMul(FTwoPi, FInt(FRound(w))))
       IN [r |-> FExp(FNeg(ga2)), m |-> AWrap(ARadToA(fr))]]

\* `aux` of a law: what is needed at every point
Aux(d) ==
  LET p == d.p IN
  CASE d.f = "vonmises" -> FAdd(FLn2Pi, LnI0(p[1]))
    [] d.f = "cartwright" ->
         LET z == FDiv(FOne, p[1]) IN
         FSub(FAdd(FMul(FSub(z, FOne), FLn2), FSub(FMul(FTwo, LnGam(FAdd(FOne, z))), LnGam(FAdd(FOne, FMul(FTwo, z))))), FLn(FPi))
    [] d.f = "wrapstable" -> StTerms(p)
    [] OTHER -> FZero

\* density at offset u up to the constant, times du
InvY(p, u) == Shifted(u, FNeg(FMul(FMul(FHalf, FAdd(FOne, p[3])), FSin(u))))
InvK(p, u) == FExp(FMul(p[1], FSub(FCos(Shifted(u, FNeg(FMul(FMul(FHalf, FSub(FOne, p[3])), FSin(u))))), FOne)))
InvE(p, u) == LET y == InvY(p, u) IN Shifted(y, FNeg(FMul(p[2], FAdd(FOne, FCos(y)))))
\* near the antimode the Cartwright density can have a cusp: integrate over v with (pi - e) = pi ((pi - v)/pi)^4
LOCAL CwE(v) == LET s == ASigned(v) q == FDiv(FInt(HalfT - IAbs(s)), FInt(HalfT)) e == HalfT - FRound(FMul(FInt(HalfT), FPowI(q, 4))) IN AWrap(IF s < 0 THEN -e ELSE e)
LOCAL CwV(e) == LET s == ASigned(e) q == FDiv(FInt(HalfT - IAbs(s)), FInt(HalfT)) v == HalfT - FRound(FMul(FInt(HalfT), FSqrt(FSqrt(q)))) IN AWrap(IF s < 0 THEN -v ELSE v)
LOCAL CwJ(v) == FMul(FInt(4), FPowI(FDiv(FInt(HalfT - IAbs(ASigned(v))), FInt(HalfT)), 3))
\* cos(u/2), exact next to the antimode
LOCAL Cwc(u) == LET s == IAbs(ASigned(u)) IN IF HalfT - s < 2000000 THEN LET w == FMul(FHalf, FRadOf(HalfT - s)) IN FMul(w, FSub(FOne, FDiv(FSq(w), FInt(6)))) ELSE FCos(s \div 2)
Core(d, aux, u) ==
  LET p == d.p IN
  CASE d.f = "circularuniform" -> FDiv(FOne, FTwoPi)
    [] d.f = "triangular" -> FDiv(FAdd(FSub(FInt(4), FMul(FSq(FPi), p[1])), FMul(FMul(FTwoPi, p[1]), FAbs(FRadOf(AWrap(u) - HalfT)))), FMul(FInt(8), FPi))
    [] d.f = "cardioid" -> FDiv(FAdd(FOne, FMul(FMul(FTwo, p[1]), FCos(u))), FTwoPi)
    [] d.f = "cartwright" ->
         LET b == FMul(FTwo, FSq(Cwc(u))) IN IF b[1] = 0 THEN FZero ELSE FExp(FAdd(aux, FDiv(FLn(b), p[1])))
    [] d.f = "wrapnorm" -> LET s2 == FMul(FInt(-2), FLn(p[1])) IN FDiv(WN(FRadOf(ASigned(u)), s2, 4), FSqrt(FMul(FTwoPi, s2)))
    [] d.f = "wrapcauchy" ->
         FDiv(FMul(FSub(FOne, p[1]), FAdd(FOne, p[1])), FMul(FTwoPi, FAdd(FSq(FSub(FOne, p[1])), FMul(FMul(FInt(4), p[1]), Half2(u)))))
    [] d.f = "vonmises" -> FExp(FSub(FMul(p[1], FCos(u)), aux))
    [] d.f = "vonmises_flattopped" -> FExp(FMul(p[1], FSub(FCos(Shifted(u, FMul(p[2], FSin(u)))), FOne)))
    [] d.f = "jonespewsey" -> FExp(FSub(LnJP(p[1], p[2], u), p[1]))
    [] d.f = "jonespewsey_sineskewed" -> FMul(FExp(FSub(LnJP(p[1], p[2], u), p[1])), FAdd(FOne, FMul(p[3], FSin(u))))
    [] d.f = "jonespewsey_asym" -> FExp(FSub(LnJP(p[1], p[2], Shifted(u, FMul(p[3], FCos(u)))), p[1]))
    [] d.f = "wrapstable" ->
         LET s == FoldLeft(LAMBDA a, t : LET x == (a[2] + u) % T IN <<FAdd(a[1], FMul(t.r, FCos(x - t.m))), x>>, <<FZero, 0>>, aux)
         IN FDiv(FAdd(FOne, FMul(FTwo, s[1])), FTwoPi)
    [] OTHER ->
         LET lam == ARadToA(p[3])
             den == FAdd(FSq(FSub(FOne, p[2])), FMul(FMul(FInt(4), p[2]), Half2(u - lam)))
             num == FSub(FCos(u), FMul(p[2], FCos(lam)))
         IN FDiv(FAdd(FOne, FDiv(FMul(FMul(FTwo, p[1]), num), den)), FTwoPi)
\* mass per unit of the integration variable u
Kern(d, aux, u) ==
  LET p == d.p IN
  CASE d.f = "inverse_batschelet" -> FMul(InvK(p, u), FMul(FSub(FOne, FMul(FMul(FHalf, FAdd(FOne, p[3])), FCos(u))), FAdd(FOne, FMul(p[2], FSin(InvY(p, u))))))
    [] d.f = "cartwright" -> FMul(Core(d, aux, CwE(u)), CwJ(u))
    [] OTHER -> Core(d, aux, u)
\* offset from the location at which integration variable u stands
OffsetOf(d, u) == IF d.f = "inverse_batschelet" THEN InvE(d.p, u) ELSE IF d.f = "cartwright" THEN CwE(u) ELSE AWrap(u)
\* the same as a signed angle: it rises from -T/2 to T/2 with u
LOCAL InvS(p, u) == LET y == u - ARadToA(FMul(FMul(FHalf, FAdd(FOne, p[3])), FSin(AWrap(u)))) IN y - ARadToA(FMul(p[2], FAdd(FOne, FCos(AWrap(y)))))
RECURSIVE InvBis(_, _, _, _)
LOCAL InvBis(p, e, lo, hi) ==
  IF hi - lo <= 1 THEN IF IAbs(InvS(p, hi) - e) < IAbs(InvS(p, lo) - e) THEN hi ELSE lo
  ELSE LET m == lo + ((hi - lo) \div 2)
       IN IF InvS(p, m) <= e THEN InvBis(p, e, m, hi) ELSE InvBis(p, e, lo, m)
\* the integration variable at an offset
VarOf(d, e) == IF d.f = "inverse_batschelet" THEN AWrap(InvBis(d.p, ASigned(e), -HalfT, HalfT)) ELSE IF d.f = "cartwright" THEN CwV(e) ELSE AWrap(e)

\* --- integration
LOCAL NPan == 64
LOCAL EdgeH(k) == FRound(FMul(FInt(HalfT), FMul(FDiv(FInt(k), FInt(NPan)), FAdd(FDec(15, -2), FMul(FDec(85, -2), FDiv(FInt(k), FInt(NPan)))))))
Edges == [k \in 0..(2 * NPan) |-> IF k <= NPan THEN EdgeH(k) ELSE T - EdgeH(2 * NPan - k)]
LOCAL GlX == << FDec(46910077, -9), FDec(23076534, -8), FDec(5, -1), FDec(76923466, -8), FDec(95308992, -8) >>
LOCAL GlW == << FDec(11846344, -8), FDec(23931434, -8), FDec(28444444, -8), FDec(23931434, -8), FDec(11846344, -8) >>
\* integral of g over the panel from a to b
Panel(g(_), a, b) ==
  IF b <= a THEN FZero
  ELSE FMul(FRadOf(b - a), FoldLeft(LAMBDA s, j : FAdd(s, FMul(GlW[j], g(a + FRound(FMul(FInt(b - a), GlX[j]))))), FZero, <<1, 2, 3, 4, 5>>))
\* table of a law: [aux, c |-> integrals up to the edges]
Table(d) ==
  LET aux == TLCEval(Aux(d)) ed == TLCEval(Edges)
      c == FoldLeft(LAMBDA s, k : Append(s, FAdd(s[Len(s)], Panel(LAMBDA u : Kern(d, aux, u), ed[k - 1], ed[k]))), <<FZero>>, [k \in 1..(2 * NPan) |-> k])
  IN [aux |-> aux, ed |-> ed, c |-> c, z |-> c[Len(c)]]
\* integral from the start of the table up to variable u
Upto(d, t, u) ==
  LET k == CHOOSE j \in 0..(2 * NPan - 1) : t.ed[j] <= u /\ u < t.ed[j + 1]
  IN FAdd(t.c[k + 1], Panel(LAMBDA v : Kern(d, t.aux, v), t.ed[k], u))
\* density at the angle x
Pdf(d, t, x) ==
  LET e == x - d.loc IN
  IF d.f = "inverse_batschelet" THEN FDiv(InvK(d.p, VarOf(d, e)), t.z)
  ELSE FDiv(Core(d, t.aux, AWrap(e)), t.z)
\* mass from direction 0 anticlockwise to x, 0 <= x <= T
Cdf(d, t, x) ==
  IF x = T THEN FOne
  ELSE LET va == VarOf(d, -d.loc) vb == VarOf(d, x - d.loc)
           q == FDiv(FSub(Upto(d, t, vb), Upto(d, t, va)), t.z)
       IN IF vb > va \/ (vb = va /\ x < HalfT) THEN q ELSE FAdd(q, FOne)
\* trigonometric moment of order p about the location: [c, s]
MomentAt(d, t, p) ==
  LET Integ(g(_)) == FDiv(FoldLeft(LAMBDA s, k : FAdd(s, Panel(LAMBDA u : FMul(Kern(d, t.aux, u), g(AMul(OffsetOf(d, u), p))), t.ed[k - 1], t.ed[k])), FZero, [k \in 1..(2 * NPan) |-> k]), t.z)
  IN [c |-> Integ(FCos), s |-> Integ(FSin)]
\* first three moments about the location, and the entropy, in one pass:
\* [m |-> << [c, s], ... >>, h |-> - integral of f ln f]
AllMoments(d, t) ==
  LET lz == FLn(t.z)
      \* the density proper at integration variable u (the mass element is Kern)
      LnF(u, k) == IF d.f = "inverse_batschelet" THEN FSub(FLn(FMax(InvK(d.p, u), FDec(1, -30))), lz)
                   ELSE LET c == IF d.f = "cartwright" THEN Core(d, t.aux, CwE(u)) ELSE k IN FSub(FLn(FMax(c, FDec(1, -30))), lz)
      PanelV(a, b, s0) ==
        FoldLeft(LAMBDA s, j :
          LET u == TLCEval(a + FRound(FMul(FInt(b - a), GlX[j])))
              k == TLCEval(Kern(d, t.aux, u))
              w == TLCEval(FMul(FMul(FRadOf(b - a), GlW[j]), k))
              e == TLCEval(OffsetOf(d, u))
              c == TLCEval(FCos(e)) n == TLCEval(FSin(e))
              c2 == FSub(FSq(c), FSq(n)) n2 == FMul(FTwo, FMul(c, n))
          IN <<FAdd(s[1], FMul(w, c)), FAdd(s[2], FMul(w, n)), FAdd(s[3], FMul(w, c2)), FAdd(s[4], FMul(w, n2)),
               FAdd(s[5], FMul(w, FSub(FMul(c, c2), FMul(n, n2)))), FAdd(s[6], FMul(w, FAdd(FMul(n, c2), FMul(c, n2)))),
               FSub(s[7], IF FLe(k, FZero) THEN FZero ELSE FMul(w, LnF(u, k)))>>,
          s0, <<1, 2, 3, 4, 5>>)
      v == FoldLeft(LAMBDA s, k : PanelV(t.ed[k - 1], t.ed[k], s), [i \in 1..7 |-> FZero], [k \in 1..(2 * NPan) |-> k])
      q == [i \in 1..7 |-> FDiv(v[i], t.z)]
  IN [m |-> << [c |-> q[1], s |-> q[2]], [c |-> q[3], s |-> q[4]], [c |-> q[5], s |-> q[6]] >>, h |-> q[7]]
\* moment about the zero direction from the moment m about the location
TurnMoment(m, a) == LET c == FCos(AWrap(a)) s == FSin(AWrap(a)) IN [c |-> FSub(FMul(m.c, c), FMul(m.s, s)), s |-> FAdd(FMul(m.c, s), FMul(m.s, c))]
=============================================================================
