------------------------------ MODULE MC_Kernel ------------------------------
(* The estimate integrates to one, and moves with the data; copies of a data  *)
(* set are independent.                                                       *)
EXTENDS Kernel
CONSTANTS Lattice, Ns, Hs, Steps
VARIABLES x, h, step, cat, mine, n
vars == <<x, h, step, cat, mine, n>>
Names == {"a", "b"}
Init == /\ \E k \in Ns : \E a \in [1..k -> Lattice] : x = Sample1(a)
        /\ h \in Hs /\ step = "new" /\ n = 0
        /\ cat = [m \in Names |-> <<1, 2>>] /\ mine = <<>>
Data == /\ step = "new" /\ UNCHANGED <<cat, mine, n, h>>
        /\ \/ step' = "rotate" /\ x' = Apply([t |-> "Rotate", x |-> 40000000, i |-> 1, j |-> 1], x)
           \/ step' = "reflect" /\ x' = Apply([t |-> "Reflect", x |-> 0, i |-> 1, j |-> 1], x)
           \/ step' = "swap" /\ x' = Apply([t |-> "Swap", x |-> 0, i |-> 1, j |-> Len(x.a)], x)
           \/ step' = "turn" /\ x' = Apply([t |-> "Turn", x |-> -1, i |-> 1, j |-> 1], x)
Copies == /\ step \in {"new", "copies"} /\ step' = "copies" /\ n < Steps /\ n' = n + 1 /\ UNCHANGED <<x, h, cat>> /\ Len(x.a) = 1
          /\ \/ \E m \in Names : mine' = Append(mine, [of |-> m, rows |-> Load(cat, m), edited |-> FALSE])
             \/ \E i \in DOMAIN mine : mine' = [mine EXCEPT ![i] = [of |-> mine[i].of, rows |-> <<0>>, edited |-> TRUE]]
Next == Data \/ Copies
Spec == Init /\ [][Next]_vars
At(s, g) == Estimate(s, AWrap(g), h)
Integral == LET M == 72 IN FMul(FSum([k \in 1..M |-> At(x, (k - 1) * (T \div M))]), FRadOf(T \div M))
One == step = "new" => FClose(Integral, FOne, FDec(2, -3))
Positive == \A k \in 0..11 : FLe(FZero, At(x, k * 30000000))
Undone == \A k \in 0..5 : LET f == At(x, k * 60000000) IN FNear(Density(Height(f, FDec(15, -1)), FDec(15, -1)), f, FDec(1, -5))
Laws == [][ step' # "copies" => \A k \in 0..8 : LET g == k * 40000000 IN
            FNear(Estimate(x', AWrap(CASE step' = "rotate" -> g + 40000000 [] step' = "reflect" -> -g [] OTHER -> g), h'), At(x, g), FDec(1, -6)) ]_vars
Fresh == \A i \in DOMAIN mine : ~mine[i].edited => mine[i].rows = cat[mine[i].of]
=============================================================================
