--------------------------------- MODULE Call ---------------------------------
(***************************************************************************)
(* A caller of the library.  The caller keeps arguments (an abstract value  *)
(* each) and remembers what every function answered for them; a call is an  *)
(* action that may change neither.  A value can be handed over in several   *)
(* forms (float array, read-only, strided, list, integers, data objects):   *)
(* forms of one value stand for the same argument.                          *)
(***************************************************************************)
EXTENDS Flt, Sequences, TLC

\* the value a form stands for: whole numbers are a value of their own
ValueOf(form) == IF form \in {"whole", "integer"} THEN "whole" ELSE "real"
\* forms that reach the computation as the same float array, bit by bit
SameBits(f, g) == f = g \/ {f, g} \subseteq {"float", "readonly"}

Agree(v, w) == Len(v) = Len(w) /\ \A i \in DOMAIN v : FSame(v[i], w[i], FDec(2, -7))
\* an answer: exception, numbers
Consistent(c, m) == /\ c.e = m.e
                    /\ Agree(c.v, m.v)
                    /\ SameBits(c.k, m.k) => c.bits = m.bits
\* remembered answers of the same question
Known(memo, c) == {i \in DOMAIN memo : memo[i].f = c.f /\ ValueOf(memo[i].k) = ValueOf(c.k)}
Harmless(memo, c) == c.kept = 1 /\ \A i \in Known(memo, c) : Consistent(c, memo[i])
=============================================================================
