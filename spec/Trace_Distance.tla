--------------------------- MODULE Trace_Distance ---------------------------
(* Recorded distances and mean deviations (C04). *)
EXTENDS Distance, TraceBase
VARIABLES l, d, o
vars == <<l, d, o>>

\* a mean deviation is reported to five decimals
Rounded(v, e) == FLe(FAbs(FSub(v, e)), FDec(52, -7))

Def(r, x) ==
  LET q == r.o a == x.a b == r.y n == Len(a) m == Len(b) IN
  << <<"no-exception", r.exc = <<>> >>,
     <<"refuses", q.bad = 1>>, <<"keeps-arguments", q.keep = 1>> >>
  \o [k \in 1..4 |-> <<"dist-" \o Metrics[k], Len(q.one[k]) = n /\ \A i \in 1..n : DistIs(Metrics[k], q.one[k][i], a[i], b[1])>>]
  \o [k \in 1..4 |-> <<"dist-elementwise-" \o Metrics[k], Len(q.elt[k]) = n /\ \A i \in 1..n : DistIs(Metrics[k], q.elt[k][i], a[i], a[((i * 3) % n) + 1])>>]
  \o [k \in 1..4 |-> <<"pairdist-" \o Metrics[k],
        Len(q.pair[k]) = n /\ \A i \in 1..n : Len(q.pair[k][i]) = m /\ \A j \in 1..m : DistIs(Metrics[k], q.pair[k][i][j], a[i], b[j])>>]
  \o [k \in 1..4 |-> <<"dist-self-" \o Metrics[k], \A i \in 1..n : FNear(q.self[k][i], FZero, FDec(1, -6))>>]
  \o [k \in 1..4 |-> <<"pairdist-sum-" \o Metrics[k],
        LET s == FSum([i \in 1..n |-> FSum(q.pair[k][i])]) IN FLe(FAbs(FSub(q.sum[k], s)), FMul(FDec(1, -6), FInt(n * m)))>>]
  \o << <<"mean-deviation", Len(q.dev) = m /\ \A j \in 1..m : Rounded(q.dev[j], MeanDev(a, b[j]))>>,
        <<"mean-deviation-chunked", \A c \in DOMAIN q.devc : Len(q.devc[c]) = m /\ \A j \in 1..m : Rounded(q.devc[c][j], MeanDev(a, b[j]))>>,
        <<"mean-deviation-scalar", Rounded(q.dev1, MeanDev(a, b[1]))>>,
        <<"mean-deviation-decimals", q.dec = 1>>,
        <<"mean-deviation-bounds", \A j \in 1..m : FLe(FZero, q.dev[j]) /\ FLe(q.dev[j], FDec(314160, -5))>> >>

Init == l = 1 /\ d = <<>> /\ o = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E r \in {Trace[l]} : \E x \in {IF r.op.t = "New" THEN r.data ELSE Apply(r.op, d)} :
           /\ d' = x
           /\ o' = r.o
           /\ \E cl \in {<< <<"data", x = r.data>> >> \o Def(r, x)} : Report(l, cl)
Spec == Init /\ [][Next]_vars
Accepted == AllConsumed
=============================================================================
