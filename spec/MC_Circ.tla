------------------------------- MODULE MC_Circ -------------------------------
(* Exhaustive check of binning, turning and doubling on small lattices.      *)
EXTENDS Circ
CONSTANTS Lattice, Ns, Ms, MaxW
VARIABLES x, c, step
vars == <<x, c, step>>
Init == /\ step = "new"
        /\ \E n \in Ns : \E a \in [1..n -> Lattice], w \in [1..n -> 1..MaxW] : x = [a |-> a, w |-> w]
        /\ \E m \in Ms, rot \in {0, 90000000}, ax \in {0, 1} : c = [m |-> m, rot |-> rot, ax |-> ax]
Flip(i) == [x EXCEPT !.a[i] = @ + HalfT]
Next == /\ step = "new"
        /\ \/ \E i \in DOMAIN x.a : c.ax = 1 /\ x' = Flip(i) /\ c' = c /\ step' = "flip"
           \/ c' = [c EXCEPT !.rot = (@ + 120000000) % T] /\ x' = x /\ step' = "turn"
           \/ \E i \in DOMAIN x.a : x' = [x EXCEPT !.a[i] = @ - T] /\ c' = c /\ step' = "relabel"
Spec == Init /\ [][Next]_vars
y == Source(c, x)
Counts == c.m > 0 => IsBinning(c, y, Object(c, x).w) /\ Size(Object(c, x)) = Size(x)
\* a bin never moves a direction by more than half its width
Near == c.m > 0 => \A i \in DOMAIN y.a : ANear(Centre(c, BinOf(c, y.a[i])), y.a[i], (T \div c.m) \div 2)
Halves == LET s == Summary(Source(c, x)) h == HalfDir(s.m1) IN s.m1 # ANaN => (h >= 0 /\ h <= HalfT /\ ANear(AMul(h, 2), s.m1, 2))
Laws == [][ /\ step' \in {"flip", "relabel"} => Object(c', x') = Object(c, x)
            /\ step' = "turn" =>
                 LET p == Summary(Source(c, x)) q == Summary(Source(c', x')) IN
                   FNear(p.r1, q.r1, FDec(2, -6)) /\ (FLt(FDec(1, -3), p.r1) => ANear(q.m1, AWrap(p.m1 + 120000000), 300))
            /\ (step' = "turn" /\ c.m > 0 /\ 120000000 % (T \div c.m) = 0) =>
                 LET k == 120000000 \div (T \div c.m) IN
                   \A b \in 1..c.m : Object(c', x').w[((b - 1 + k) % c.m) + 1] = Object(c, x).w[b]
          ]_vars
=============================================================================
