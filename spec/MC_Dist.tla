-------------------------------- MODULE MC_Dist --------------------------------
(* Laws of the distributions themselves, on a grid of parameters: the         *)
(* densities have mass one where the constant is known in closed form, the    *)
(* families meet in their common members, and shape parameters act as they    *)
(* should on the moments.                                                     *)
EXTENDS Dist
CONSTANTS Ks, Rs, Ps
VARIABLES d, ok
vars == <<d, ok>>
PsDef == {-1000, 0, 300, 1000}
F3(n) == FDec(n, -3)
L(f, p) == [f |-> f, p |-> p, loc |-> 0]
Laws ==
  {L("circularuniform", <<>>)} \cup {L("triangular", <<F3(r)>>) : r \in {x \in Rs : x <= 405}} \cup {L("cardioid", <<F3(r)>>) : r \in {x \in Rs : x <= 500}}
  \cup {L(f, <<F3(r)>>) : f \in {"wrapnorm", "wrapcauchy"}, r \in Rs \ {0}} \cup {L("vonmises", <<F3(k)>>) : k \in Ks} \cup {L("cartwright", <<F3(k)>>) : k \in {x \in Ks : x >= 50}}
  \cup {L("vonmises_flattopped", <<F3(k), F3(q)>>) : k \in Ks, q \in Ps} \cup {L("jonespewsey", <<F3(k), F3(q)>>) : k \in Ks, q \in Ps}
  \cup {L("jonespewsey_sineskewed", <<F3(k), F3(q), F3(s)>>) : k \in Ks, q \in Ps, s \in {-700, 0, 400}}
  \cup {L("inverse_batschelet", <<F3(k), F3(q), F3(s)>>) : k \in {x \in Ks : x <= 5000}, q \in Ps, s \in {-1000, -300, 0, 600}}
  \cup {L("katojones", <<F3(g), F3(g), FRadOf(l)>>) : g \in {x \in Rs : x <= 400}, l \in {0, 30000000, 330000000}}
  \cup {L("wrapstable", <<F3(a), F3(b), F3(g)>>) : a \in {1000, 1500, 2000}, b \in {-500, 0}, g \in {400, 1200}}
One(x, tol) == FNear(x, FOne, tol)
Good(x) ==
  LET t == Table(x) m == MomentAt(x, t, 1) p == x.p E(a, b) == FNear(a, b, FDec(1, -6))
      SamePdf(y) == LET u == Table(y) IN \A a \in {0, 37000000, 100000000, 201000000, 330000000} : FRel(Pdf(x, t, a), Pdf(y, u, a), FDec(3, -6), FDec(1, -7))
  IN /\ x.f \in {"circularuniform", "triangular", "cardioid", "cartwright", "wrapnorm", "wrapcauchy", "vonmises", "wrapstable", "katojones"} => One(t.z, FDec(6, -6))
     /\ CASE x.f = "triangular" -> E(m.c, p[1])
          [] x.f \in {"cardioid", "wrapnorm", "wrapcauchy"} -> E(m.c, p[1]) /\ E(m.s, FZero)
          [] x.f = "vonmises" -> E(m.c, A1K(p[1])) /\ SamePdf(L("jonespewsey", <<p[1], FZero>>)) /\ SamePdf(L("vonmises_flattopped", <<p[1], FZero>>))
          \* Jones-Pewsey with psi = 1 is the cardioid, psi = -1 the wrapped Cauchy
          [] x.f = "jonespewsey" ->
               LET k2 == FDiv(p[1], FTwo) th == FDiv(FSub(FExp(p[1]), FExp(FNeg(p[1]))), FAdd(FExp(p[1]), FExp(FNeg(p[1])))) th2 == FDiv(FSub(FExp(k2), FExp(FNeg(k2))), FAdd(FExp(k2), FExp(FNeg(k2)))) IN
               /\ p[2] = FOne => SamePdf(L("cardioid", <<FDiv(th, FTwo)>>))
               /\ (p[2] = FNeg(FOne) /\ FLt(p[1], FInt(3))) => SamePdf(L("wrapcauchy", <<th2>>))
               /\ E(m.s, FZero)
          [] x.f = "jonespewsey_sineskewed" -> FLe(FZero, FMul(m.s, p[3]))
          \* the skewing of the inverse Batschelet law needs no new constant
          [] x.f = "inverse_batschelet" -> FRel(t.z, Table([x EXCEPT !.p[2] = FZero]).z, FDec(2, -6), FZero)
          [] x.f = "katojones" -> E(m.c, p[1]) /\ E(m.s, FZero) /\ LET q == MomentAt(x, t, 2) IN E(q.c, FMul(FMul(p[1], p[2]), FCos(ARadToA(p[3])))) /\ E(q.s, FMul(FMul(p[1], p[2]), FSin(ARadToA(p[3]))))
          [] x.f = "wrapstable" -> LET k == FExp(FNeg(FExp(FMul(p[1], FLn(p[3]))))) IN E(FSqrt(FAdd(FSq(m.c), FSq(m.s))), k)
          [] OTHER -> TRUE
     /\ \A a \in {45000000, 180000000, 300000000} : \A y \in {[x EXCEPT !.loc = IF x.f \in Unlocated THEN 0 ELSE 70000000]} :
          LET c == Cdf(y, t, a) IN FLe(FDec(-1, -7), c) /\ FLe(c, FAdd(FOne, FDec(1, -7))) /\ FNear(Cdf(y, t, 0), FZero, FDec(1, -9))
Init == d \in Laws /\ ok = TRUE
Next == /\ ok = TRUE
        /\ ok' = FALSE
        /\ d' = d
Spec == Init /\ [][Next]_vars
Laws1 == ok => Good(d)
=============================================================================
