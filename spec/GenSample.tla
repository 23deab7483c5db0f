----------------------------- MODULE GenSample -----------------------------
(* Behaviours of Sample, drawn at random, for replay in the implementation. *)
EXTENDS Sample, Json
CONSTANTS Kinds, Sizes, WKinds, OpNames, Depth
VARIABLES d, h
vars == <<d, h>>

New == \E k \in {RndOf(Kinds)}, n \in {RndOf(Sizes)}, wk \in {RndOf(WKinds)} :
       \E x \in {IF k = "grouped" THEN RndGrouped(RndOf(GroupSizes), RndOf({0, 5000000, Rnd(0, 10000000)}), Rnd(0, 1))
                 ELSE RndSample(k, n, wk)} :
         d' = x /\ h' = <<[op |-> NoOp, data |-> x, kind |-> k]>>
Step == \E o \in {RndOp(d, OpNames)} :
         LET x == TLCEval(Apply(o, d)) IN d' = x /\ h' = Append(h, [op |-> o, data |-> x, kind |-> h[1].kind])
Init == d = <<>> /\ h = <<>>
Next == /\ Len(h) < Depth
        /\ IF h = <<>> THEN New ELSE Step
        /\ Len(h') = Depth => PrintT(<<"@@H", ToJson(h')>>)
Spec == Init /\ [][Next]_vars
=============================================================================
