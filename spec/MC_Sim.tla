------------------------------- MODULE MC_Sim -------------------------------
(* The bookkeeping of Sim: a call moves the stream it was given and no other. *)
EXTENDS Sim
CONSTANT MaxLen
VARIABLES st, n, last
vars == <<st, n, last>>
Calls == {[k |-> "Call", t |-> t, B |-> B, src |-> s] : t \in {"rayleigh", "art"}, B \in {1, 9}, s \in {<<"seed", 1>>, <<"gen", 1>>, <<"gen", 2>>}}
     \cup {[k |-> "Fresh", g |-> g, s |-> s] : g \in 1..2, s \in 1..2}
     \cup {[k |-> "Draw", g |-> g] : g \in 1..2}
     \cup {[k |-> "Global", s |-> 1], [k |-> "GDraw"]}
Init == st = Sim0 /\ n = 0 /\ last = [k |-> "none"]
Next == n < MaxLen /\ n' = n + 1 /\ \E c \in Calls : st' = ApplySim(c, st) /\ last' = c
Spec == Init /\ [][Next]_vars
\* only the process itself touches the global generator
GlobalAlone == [][last'.k \notin {"Global", "GDraw"} => st'.glob = st.glob]_vars
\* a generator that was handed over is never rewound
Advanced == [][\A g \in 1..2 : last'.k = "Call" => Len(st'.gens[g]) >= Len(st.gens[g])]_vars
Seeded == [][(last'.k = "Call" /\ last'.src[1] = "seed") => st' = st]_vars
=============================================================================
