------------------------------ MODULE Trace_Rvs ------------------------------
(* Recorded variates of the laws (C24).  The sampler is a machine whose only   *)
(* state is the generator it is given; what it emits is a sample of the law:   *)
(* the number of variates up to an angle is binomial with the law's own cdf.   *)
EXTENDS Dist, TraceBase
VARIABLES l, o
vars == <<l, o>>
\* five and a half standard deviations and the resolution of the tables
Slack(n, c) == FAdd(FMul(FDec(55, -1), FSqrt(FMul(FInt(n), FMul(c, FSub(FOne, c))))), FAdd(FInt(4), FMul(FInt(n), FDec(3, -4))))
Def(r) ==
  LET q == r.o x == r.law n == 1..Len(r.grid) IN
     \E t \in {Table(x)} :
     \E c \in {TLCEval([i \in n |-> FMin(FOne, FMax(FZero, Cdf(x, t, r.grid[i])))])} :
     Report(l, << <<"no-exception", r.exc = <<>> >>,
       <<"count", Len(q.counts) = Len(r.grid) /\ q.total = r.n>>,
       <<"law", Len(q.counts) = Len(r.grid) => \A i \in n : FClose(FInt(q.counts[i]), FMul(FInt(r.n), c[i]), Slack(r.n, c[i]))>>,
       <<"distinct-variates", q.distinct = 1>>,
       <<"on-the-circle", q.range = 1>>, <<"shape", q.shapes = 0>>, <<"seed-repeats", q.seed = 1>>, <<"seeds-differ", q.differ = 1>>,
       <<"generator-advances", q.advance = 1>>, <<"generator-state-decides", q.gen = 1>>, <<"legacy-generator", q.legacy = 1>>,
       <<"global-generator-untouched", q.glob = 1>>, <<"own-stream-untouched", q.own = 1>>, <<"frozen", q.frozen = 1>>,
       <<"history-repeats", q.again = 1>> >>)
Init == l = 1 /\ o = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E r \in {Trace[l]} : o' = r.o /\ Def(r)
Spec == Init /\ [][Next]_vars
Accepted == AllConsumed
=============================================================================
