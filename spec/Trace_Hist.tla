----------------------------- MODULE Trace_Hist -----------------------------
(* Recorded histories of questions to the shared distribution objects (C23).  *)
(* The specification's object has no memory: `memo` only remembers what was    *)
(* answered, and every answer must be the answer of an object that has never   *)
(* been asked anything, the answer given before to the same question, and,     *)
(* for densities and distribution functions, the value of the law.             *)
EXTENDS Dist, TraceBase
VARIABLES l, memo
vars == <<l, memo>>
Known(k) == \E i \in DOMAIN memo : memo[i].k = k
Get(k) == memo[CHOOSE i \in DOMAIN memo : memo[i].k = k].a
FEq(a, b) == a = b \/ (FIsNaN(a) /\ FIsNaN(b))
SameSeq(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : FEq(a[i], b[i])
Wide(f) == IF f \in {"vonmises_flattopped", "inverse_batschelet", "jonespewsey_asym"} THEN FDec(2, -3) ELSE FDec(1, -5)
Value(r) ==
  LET x == r.law IN
  \A t \in {Table(x)} : \A i \in DOMAIN r.xs :
    IF r.q \in {"pdf", "frozen"} THEN \A f \in {Pdf(x, t, r.xs[i])} : FClose(r.o.ans[i], f, FMul(Wide(x.f), FAdd(FOne, f)))
    ELSE IF r.q = "cdf" THEN FNear(r.o.ans[i], Cdf(x, t, r.xs[i]), Wide(x.f))
    ELSE FNear(r.o.ans[i], FSub(FOne, Cdf(x, t, r.xs[i])), Wide(x.f))
Def(r) ==
  Report(l, << <<"no-exception", r.exc = <<>> >>,
    <<"as-if-never-asked", SameSeq(r.o.ans, r.o.fresh) /\ r.o.bits = 1>>,
    <<"as-answered-before", r.key = "" \/ ~Known(r.key) \/ SameSeq(r.o.ans, Get(r.key))>>,
    <<"value-of-the-law", r.q \in {"pdf", "cdf", "sf", "frozen"} => Value(r)>>,
    <<"global-random-state-untouched", r.o.glob = 1>> >>)
Init == l = 1 /\ memo = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E r \in {Trace[l]} :
             /\ memo' = IF r.op.t = "New" THEN <<>> ELSE IF r.q \in {"clear", "draw"} \/ Known(r.key) THEN memo ELSE Append(memo, [k |-> r.key, a |-> r.o.ans])
             /\ IF r.op.t = "New" \/ r.q \in {"clear", "draw"} THEN TRUE ELSE Def(r)
Spec == Init /\ [][Next]_vars
Accepted == AllConsumed
=============================================================================
