------------------------------- MODULE MC_Fit -------------------------------
(***************************************************************************)
(* Fits on small samples, exhaustively: a user holds a weighted sample and *)
(* a law fitted to it, and turns, mirrors, reweighs or refits.  The moment *)
(* fit commutes with the actions; and climbing (moving one parameter to a  *)
(* likelier law) never leaves the valid laws and ends, for the von Mises   *)
(* and the cardioid law, next to the moment direction resp. above the      *)
(* moment fit.                                                             *)
(***************************************************************************)
EXTENDS Fit
CONSTANTS N, Grid, MaxW, Steps
VARIABLES d, x, k, fam
vars == <<d, x, k, fam>>
Fams == {"vonmises", "cardioid", "wrapcauchy", "wrapnorm"}
Cell == T \div Grid
FitM(f, z) == [f |-> f, loc |-> LET m == MDir(z, 1) IN IF m = ANaN THEN 0 ELSE m,
               p |-> << LET s == MomShape(f, z)[1] IN IF f = "vonmises" THEN ClipF(s, FDec(5, -2), FInt(50)) ELSE IF f = "cardioid" THEN FMin(s, FDec(49, -2)) ELSE ClipF(s, FDec(5, -2), FDec(95, -2)) >>]
Data == {z \in [1..N -> 0..(Grid - 1)] : \A i \in 1..(N - 1) : z[i] <= z[i + 1]}
Init == \E z \in Data, w \in [1..N -> 1..MaxW], f \in Fams :
          /\ d = [a |-> [i \in 1..N |-> z[i] * Cell + i * 7000003], w |-> w]
          /\ fam = f /\ x = FitM(f, d) /\ k = 0
Better(y) == InSearch(y) /\ FLt(FAdd(LogL(x, d), FDec(1, -5)), LogL(y, d))
Next == /\ k < Steps /\ k' = k + 1 /\ UNCHANGED <<d, fam>>
        /\ \E y \in {Moved(x, j, up) : j \in 0..1, up \in BOOLEAN} : Better(y) /\ x' = y
Spec == Init /\ [][Next]_vars
ValidLaw == Valid(x)
Climbs == [][FLt(LogL(x, d), LogL(x', d))]_vars
Sharp == FLt(FDec(5, -2), RLen(d, 1))
\* the first steps commute with turning, mirroring and writing weights out
Equivariant ==
  (k = 0 /\ Sharp) =>
    /\ \A op \in {[t |-> "Rotate", x |-> 70000000, i |-> 1, j |-> 1], [t |-> "Reflect", x |-> 0, i |-> 1, j |-> 1]} :
         LET z == Apply(op, d) y == FitM(fam, z) m == MovedLaw(op, x) IN
         /\ ANear(y.loc, m.loc, 100) /\ FRel(y.p[1], m.p[1], FDec(1, -5), FDec(1, -5))
         /\ FClose(LogL(y, z), LogL(x, d), FDec(1, -4))
    /\ LET z == Sample1(Expanded(d)) y == FitM(fam, z) IN
         /\ FRel(y.p[1], x.p[1], FDec(1, -6), FDec(1, -6)) /\ FClose(LogL(y, z), LogL(x, d), FDec(1, -4))
\* the von Mises likelihood is highest in the mean direction whatever the concentration
VonMisesDirection == (fam = "vonmises" /\ k = 0 /\ Sharp) => \A up \in BOOLEAN : FLe(LogL(Moved(x, 0, up), d), FAdd(LogL(x, d), FDec(1, -5)))
=============================================================================
