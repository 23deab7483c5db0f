------------------------------- MODULE MC_Cache -------------------------------
(* Why the answers of a caching object may depend on its history.              *)
(* An object answers questions about laws (a, b) and keeps what it computed    *)
(* under a key.  With a key that tells all laws apart every history gives      *)
(* every law its own answer, whatever was asked, evicted or cleared before;    *)
(* with a key that forgets part of the law some history does not.              *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS As, Bs, Bound
VARIABLES cache, ans, mode, asked
vars == <<cache, ans, mode, asked>>
Laws == As \X Bs
Value(w) == 10 * w[1] + w[2]
Key(w) == IF mode = "full" THEN w ELSE <<w[1], 0>>
Get(k) == (CHOOSE e \in cache : e[1] = k)[2]
Known(k) == \E e \in cache : e[1] = k
Init == cache = {} /\ ans = <<>> /\ mode \in {"full", "coarse"} /\ asked = {}
Query(w) ==
  /\ ans' = <<w, IF Known(Key(w)) THEN Get(Key(w)) ELSE Value(w)>>
  /\ asked' = asked \cup {w}
  /\ \/ cache' = (IF Known(Key(w)) THEN cache ELSE cache \cup {<<Key(w), Value(w)>>})
     \/ /\ Cardinality(cache) >= Bound
        /\ \E e \in cache : cache' = (cache \ {e}) \cup (IF Known(Key(w)) THEN {} ELSE {<<Key(w), Value(w)>>})
  /\ UNCHANGED mode
Clear == cache' = {} /\ UNCHANGED <<ans, mode, asked>>
Next == (\E w \in Laws : Query(w)) \/ Clear
Spec == Init /\ [][Next]_vars
\* the observable object is a function of the question
Answers == (mode = "full" /\ ans # <<>>) => ans[2] = Value(ans[1])
OneEntry == \A e, f \in cache : e[1] = f[1] => e = f
\* a coarse key can only be wrong about a law that shares its key with one asked before
Blame == (ans # <<>> /\ ans[2] # Value(ans[1])) => mode = "coarse" /\ \E w \in asked : w # ans[1] /\ w[1] = ans[1][1]
=============================================================================
