---------------------------- MODULE MC_Direction ----------------------------
(* Tests against a direction: sample and direction move together. *)
EXTENDS Direction
CONSTANTS Lattice, Dirs, MaxN
VARIABLES d, ang, op
vars == <<d, ang, op>>
Ops(x) == {[t |-> "Rotate", x |-> v, i |-> 1, j |-> 1] : v \in {45000000, -100000000}}
     \cup {[t |-> t, x |-> 0, i |-> 1, j |-> 1] : t \in {"Reflect", "Wrap", "Reverse"}}
     \cup {[t |-> "Turn", x |-> v, i |-> i, j |-> 1] : v \in {-1, 1}, i \in 1..Len(x.a)}
MoveDir(o, g) == IF o.t = "Rotate" THEN g + o.x ELSE IF o.t = "Reflect" THEN -g ELSE g
Init == /\ op = NoOp /\ \E n \in 1..MaxN : \E a \in [1..n -> Lattice] : d = Sample1(a)
        /\ ang \in Dirs
Next == op.t = "New" /\ \E o \in Ops(d) : op' = o /\ d' = Apply(o, d) /\ ang' = MoveDir(o, ang)
Spec == Init /\ [][Next]_vars
n == Len(d.a)
In01(p) == FLe(FDec(-1, -5), p) /\ FLe(p, FDec(100001, -5))
D0 == SDevs(d.a, ang)
Ranges ==
  /\ In01(BinomTwoHalf(n, Outside(d.a, ang)))
  /\ Before(d.a, ang) + After(d.a, ang) <= n
  /\ D0 # <<>> => In01(SignExact(D0)) /\ In01(SignP(n, D0))
  /\ FLe(FAbs(VStat(Summary(d), ang)), FDec(n * 10001, -4))
Tol == FDec(2, -6)
Laws == [][
  /\ ~OnEdge(d.a, ang) => Outside(d.a, ang) = Outside(d'.a, ang')
  /\ ~OnAxis(d.a, ang) => {Before(d.a, ang), After(d.a, ang)} = {Before(d'.a, ang'), After(d'.a, ang')}
  /\ (~OnAxis(d.a, ang) \/ \A i \in DOMAIN d.a : ADist(d.a[i], ang) < HalfT - 3) =>
       (SDevs(d.a, ang) # <<>> => SignStat(SDevs(d.a, ang)) = SignStat(SDevs(d'.a, ang')) /\ FNear(SignExact(SDevs(d.a, ang)), SignExact(SDevs(d'.a, ang')), Tol))
  /\ FNear(VStat(Summary(d), ang), VStat(Summary(d'), ang'), FDec(1, -5))
  ]_vars
=============================================================================
