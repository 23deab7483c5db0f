----------------------------- MODULE GenGroups -----------------------------
(* Behaviours of Groups, for replay. *)
EXTENDS Groups, Json
CONSTANTS Ks, Kinds, Sizes, WKinds, Modes, OpNames, Depth
VARIABLES s, ang, h
vars == <<s, ang, h>>
New == \E S \in {RndGroups(RndOf(Ks), RndOf(Kinds), Sizes, RndOf(WKinds), RndOf(Modes))} :
       \E v \in {LET q == RndOf(1..3) IN IF q = 1 THEN Rnd(0, T - 1) ELSE IF q = 2 THEN 5000000 * Rnd(0, 71) ELSE AWrap(S[1].a[1])} :
         s' = S /\ ang' = v /\ h' = <<[op |-> GNoOp, s |-> S, ang |-> v]>>
Step == \E o \in {RndGOp(s, OpNames)} :
        \E S \in {GApply(o, s)} : \E v \in {GAngle(o, ang)} :
          s' = S /\ ang' = v /\ h' = Append(h, [op |-> o, s |-> S, ang |-> v])
Init == s = <<>> /\ ang = 0 /\ h = <<>>
Next == /\ Len(h) < Depth
        /\ IF h = <<>> THEN New ELSE Step
        /\ Len(h') = Depth => PrintT(<<"@@H", ToJson(h')>>)
Spec == Init /\ [][Next]_vars
=============================================================================
