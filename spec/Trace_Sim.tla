----------------------------- MODULE Trace_Sim -----------------------------
(* Recorded histories of random calls (C10).                                *)
(* memo: <<test, simulations, stream>> -> <<statistic, p>>;                 *)
(* tok: stream -> state of a generator with that history (a number).        *)
EXTENDS Sim, Flt, TraceBase
VARIABLES l, st, memo, tok, n
vars == <<l, st, memo, tok, n>>

PutM(f, k, v) == IF k \in DOMAIN f THEN f ELSE [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
\* p (B + 1) is a whole number between 1 and B + 1
Share(p, B) == LET q == FMul(p, FInt(B + 1)) k == FRound(q) IN
               1 <= k /\ k <= B + 1 /\ FRel(q, FInt(k), FDec(1, -6), FDec(1, -6))

Tok(f, k, v) == k \in DOMAIN f => f[k] = v
GKey(h) == << <<"global", 0>> >> \o h

Cl(r, s2, key, m0, t0) ==
  LET c == r.c q == r.o IN
  << <<"no-exception", r.exc = <<>> >>,
     <<"global-state", Tok(t0, GKey(s2.glob), q.glob)>>,
     <<"generator-1", Tok(t0, s2.gens[1], q.g1)>>,
     <<"generator-2", Tok(t0, s2.gens[2], q.g2)>> >>
  \o (IF c.k # "Call" THEN <<>> ELSE <<
     <<"reproduced", key \in DOMAIN m0 => m0[key] = <<q.stat, q.p>> >>,
     <<"share", Draws(c.t, c.B) => Share(q.p, c.B)>>,
     <<"probability", FLe(FZero, q.p) /\ FLe(q.p, FOne)>>,
     <<"label", q.nsim = c.B /\ q.mode = (CASE c.t = "raow" -> "grouped" [] c.t = "rao" -> "ungrouped" [] c.t \in {"rayleigh", "art"} -> ""
                                            [] OTHER -> IF c.B = 1 THEN "asymptotic" ELSE "simulation")>>,
     <<"advanced", (c.src[1] = "gen" /\ Draws(c.t, c.B)) => (IF c.src[2] = 1 THEN q.g1 ELSE q.g2) # q.before>> >>)

Init == l = 1 /\ st = Sim0 /\ memo = <<>> /\ tok = <<>> /\ n = 0
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E r \in {Trace[l]} :
           \E s1 \in {IF r.i = 1 THEN Sim0 ELSE st} :
           \E s2 \in {ApplySim(r.c, s1)} :
           \E m0 \in {IF r.i = 1 THEN <<>> ELSE memo} :
           \E t0 \in {IF r.i = 1 THEN <<>> ELSE tok} :
           \E key \in {IF r.c.k = "Call" THEN <<r.c.t, r.c.B, StreamOf(r.c.src, s1.gens)>> ELSE <<>>} :
             /\ st' = s2
             /\ n' = r.i
             /\ memo' = IF r.c.k = "Call" THEN PutM(m0, key, <<r.o.stat, r.o.p>>) ELSE m0
             /\ tok' = PutM(PutM(PutM(t0, GKey(s2.glob), r.o.glob), s2.gens[1], r.o.g1), s2.gens[2], r.o.g2)
             /\ \E cl \in {Cl(r, s2, key, m0, t0)} : Report(l, cl)
Spec == Init /\ [][Next]_vars
Accepted == AllConsumed
=============================================================================
