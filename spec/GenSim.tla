------------------------------- MODULE GenSim -------------------------------
(* Histories of calls drawing random numbers. *)
EXTENDS Sim, Json
CONSTANTS Depth, Bs
VARIABLES st, h
vars == <<st, h>>
R(S) == RandomElement(S)
Src == R({<<"seed", 1>>, <<"seed", 2>>, <<"seed", 3>>, <<"gen", 1>>, <<"gen", 2>>, <<"gen", 1>>})
\* a few tests per behaviour, so that calls repeat
Ops(u) ==
  LET k == TLCEval(R(1..12)) IN
  TLCEval(CASE k <= 8 -> [k |-> "Call", t |-> u[R(1..3)], B |-> R(Bs), src |-> Src]
    [] k = 9  -> [k |-> "Fresh", g |-> R(1..2), s |-> R(1..3)]
    [] k = 10 -> [k |-> "Draw", g |-> R(1..2)]
    [] k = 11 -> [k |-> "Global", s |-> R(0..2)]
    [] k = 12 -> [k |-> "GDraw"])
Init == st = Sim0 /\ h = <<>>
Next == /\ Len(h) < Depth
        /\ \E u \in {IF h = <<>> THEN <<R(SimTests), R(SimTests), R(SimTests)>> ELSE h[1].u} :
           \E c \in {Ops(u)} :
             /\ st' = ApplySim(c, st)
             /\ h' = Append(h, [c |-> c, u |-> u])
        /\ Len(h') = Depth => PrintT(<<"@@H", ToJson(h')>>)
Spec == Init /\ [][Next]_vars
=============================================================================
