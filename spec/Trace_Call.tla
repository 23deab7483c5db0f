------------------------------ MODULE Trace_Call ------------------------------
(* Recorded calls against Call (C26): the answers are remembered in order.    *)
EXTENDS Call, Sample, TraceBase
VARIABLES l, d, o
vars == <<l, d, o>>
Clauses(cs) ==
  \* call i against every earlier one of the same question
  [i \in 1..Len(cs) |-> <<"untouched " \o cs[i].f, cs[i].kept = 1>>] \o
  [i \in 1..Len(cs) |-> <<"global-generator " \o cs[i].f, cs[i].rng = 1>>] \o
  [i \in 1..Len(cs) |-> <<"consistent " \o cs[i].f \o " " \o cs[i].k, \A j \in 1..(i - 1) :
      (cs[j].f = cs[i].f /\ ValueOf(cs[j].k) = ValueOf(cs[i].k)) => Consistent(cs[i], cs[j])>>]
Init == l = 1 /\ d = <<>> /\ o = 0
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E r \in {Trace[l]} : \E x \in {IF r.op.t = "New" THEN r.data ELSE Apply(r.op, d)} :
           /\ d' = x
           /\ o' = Len(r.calls)
           /\ \E cl \in {<< <<"data", x = r.data>>, <<"no-exception", r.exc = <<>> >> >> \o Clauses(r.calls)} : Report(l, cl)
Spec == Init /\ [][Next]_vars
Accepted == AllConsumed
=============================================================================
