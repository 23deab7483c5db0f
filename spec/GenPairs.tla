------------------------------ MODULE GenPairs ------------------------------
(* Behaviours of Pairs, for replay. *)
EXTENDS Pairs, Json
CONSTANTS Kinds, Sizes, Modes, XModes, OpNames, Depth
VARIABLES d, h
vars == <<d, h>>
New == \E x \in {RndPairs(RndOf(Kinds), RndOf(Sizes), RndOf(Modes), RndOf(XModes))} : d' = x /\ h' = <<[op |-> NoOp, data |-> x]>>
Step == \E o \in {RndPOp(d, OpNames)} : \E x \in {PApply(o, d)} : d' = x /\ h' = Append(h, [op |-> o, data |-> x])
Init == d = <<>> /\ h = <<>>
Next == /\ Len(h) < Depth
        /\ IF h = <<>> THEN New ELSE Step
        /\ Len(h') = Depth => PrintT(<<"@@H", ToJson(h')>>)
Spec == Init /\ [][Next]_vars
=============================================================================
