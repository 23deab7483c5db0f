------------------------------- MODULE MC_Call -------------------------------
(* The monitor of Call against libraries that do and do not deserve it.       *)
EXTENDS Call, Integers
CONSTANTS Depth
VARIABLES lib, x, hid, memo, flag, n
vars == <<lib, x, hid, memo, flag, n>>
Libs == {"pure", "in-place", "counts-calls", "caches-by-length", "form-dependent", "last-argument"}
Values == {<<1>>, <<5>>, <<1, 5>>, <<5, 5>>}
Wrapped(v) == [i \in DOMAIN v |-> v[i] % 4]
RECURSIVE Tot(_, _)
Tot(v, i) == IF i > Len(v) THEN 0 ELSE v[i] + Tot(v, i + 1)
Answer(v, k) ==
  CASE lib = "counts-calls" -> Tot(v, 1) + hid.calls
    [] lib = "caches-by-length" -> IF hid.len[Len(v)] = 0 THEN Tot(v, 1) ELSE hid.len[Len(v)]
    [] lib = "form-dependent" -> IF k = "list" THEN Tot(v, 1) + 1 ELSE Tot(v, 1)
    [] lib = "last-argument" -> IF hid.last = v THEN Tot(v, 1) + 1 ELSE Tot(v, 1)
    [] OTHER -> Tot(v, 1)
Init == lib \in Libs /\ x \in Values /\ hid = [calls |-> 0, len |-> <<0, 0>>, last |-> <<>>] /\ memo = <<>> /\ flag = FALSE /\ n = 0
Ask(k) ==
  LET a == Answer(x, k)
      after == IF lib = "in-place" /\ k # "list" THEN Wrapped(x) ELSE x
      c == [f |-> x, k |-> k, e |-> "", kept |-> IF after = x THEN 1 ELSE 0, bits |-> a, v |-> <<FInt(a)>>]
  IN /\ flag' = (flag \/ ~Harmless(memo, c))
     /\ memo' = Append(memo, c)
     /\ hid' = [calls |-> hid.calls + 1, len |-> IF hid.len[Len(x)] = 0 THEN [hid.len EXCEPT ![Len(x)] = Tot(x, 1)] ELSE hid.len, last |-> x]
     /\ x' = after
Next == n < Depth /\ n' = n + 1 /\ lib' = lib /\
        (\/ \E k \in {"float", "readonly", "list"} : Ask(k)
         \/ \E v \in Values : x' = v /\ UNCHANGED <<hid, memo, flag>>)
Spec == Init /\ [][Next]_vars
\* no alarm for a pure library, along any history
Quiet == lib = "pure" => ~flag
\* asking twice gives a library with a memory away
Twice == \E i, j \in DOMAIN memo : i < j /\ memo[i].f = memo[j].f
Caught == /\ (lib = "counts-calls" /\ Twice) => flag
          /\ (lib = "in-place" /\ \E i \in DOMAIN memo : memo[i].kept = 0) => flag
          /\ (lib = "form-dependent" /\ \E i, j \in DOMAIN memo : memo[i].f = memo[j].f /\ memo[i].k = "list" /\ memo[j].k # "list") => flag
          /\ (lib \in {"caches-by-length", "last-argument"} /\ \E i, j \in DOMAIN memo : memo[i].f = memo[j].f /\ memo[i].v # memo[j].v) => flag
=============================================================================
