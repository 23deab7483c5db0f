------------------------------ MODULE MC_Angle ------------------------------
(* The circle's arithmetic: group laws, metric laws and arcs, on a lattice. *)
EXTENDS Trig
CONSTANTS Step, Span
VARIABLES a, b, c
vars == <<a, b, c>>
L == {i * Step : i \in -Span..Span}
Init == a \in L /\ b \in L /\ c \in L
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Wrapping == /\ AWrap(a) \in 0..(T - 1) /\ AWrap(AWrap(a)) = AWrap(a) /\ AWrap(a + T) = AWrap(a)
            /\ AWrap(a + b) = AWrap(AWrap(a) + AWrap(b))
            /\ ASigned(a) \in (1 - HalfT)..HalfT /\ AWrap(ASigned(a)) = AWrap(a)
Metric == /\ ADist(a, b) = ADist(b, a) /\ ADist(a, b) \in 0..HalfT
          /\ (ADist(a, b) = 0) = (AWrap(a) = AWrap(b))
          /\ ADist(a, c) <= ADist(a, b) + ADist(b, c)
          /\ ADist(a + c, b + c) = ADist(a, b) /\ ADist(-a, -b) = ADist(a, b)
Arcs == /\ AInArc(a, a, b) /\ AInArc(b, a, b)
        /\ AInArc(c, a, b) = AInArc(c + 3 * Step, a + 3 * Step, b + 3 * Step)
        /\ (AWrap(a) # AWrap(b)) => (AInArc(c, a, b) \/ AInArc(c, b, a))
        /\ (AWrap(c) \notin {AWrap(a), AWrap(b)} /\ AWrap(a) # AWrap(b)) => AInArc(c, a, b) # AInArc(c, b, a)
        /\ AInArc(-c, -b, -a) = AInArc(c, a, b)
Trigon == LET s == FSin(a) k == FCos(a) IN
        /\ FNear(FAdd(FSq(s), FSq(k)), FOne, FDec(1, -7))
        /\ FNear(FSin(a + b), FAdd(FMul(s, FCos(b)), FMul(k, FSin(b))), FDec(2, -7))
        /\ ANear(AAtan2(s, k), a, 10)
=============================================================================
