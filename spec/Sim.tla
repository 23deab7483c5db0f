-------------------------------- MODULE Sim --------------------------------
(***************************************************************************)
(* Tests that draw random numbers, as a state machine.                     *)
(*                                                                         *)
(* A caller owns generators; the process owns the global one.  A stream is *)
(* described by its history: the seed it was made from and what was drawn  *)
(* since.  Two streams with the same history give the same draws, so what  *)
(* a call returns may depend on the test, the data, the number of          *)
(* simulations and the history of the stream it draws from, and nothing    *)
(* else: in particular not on the global generator or on earlier calls.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

SimTests == {"rayleigh", "kuiper", "watson", "rao", "raow", "art"}
Draws(t, B) == IF t \in {"rayleigh", "kuiper", "watson"} THEN B > 1 ELSE TRUE   \* one simulation means the analytic p-value

\* a call names its source: <<"seed", s>> or <<"gen", g>>
StreamOf(src, gens) == IF src[1] = "seed" THEN << <<"seed", src[2]>> >> ELSE gens[src[2]]
Event(c) == <<c.t, c.B>>

\* state: gens[g] is a history, glob the history of the global generator
ApplySim(c, st) ==
  CASE c.k = "Call"   -> IF c.src[1] = "gen" /\ Draws(c.t, c.B)
                         THEN [st EXCEPT !.gens[c.src[2]] = Append(@, Event(c))] ELSE st
    [] c.k = "Fresh"  -> [st EXCEPT !.gens[c.g] = << <<"seed", c.s>> >>]
    [] c.k = "Draw"   -> [st EXCEPT !.gens[c.g] = Append(@, <<"draw", 1>>)]
    [] c.k = "Global" -> [st EXCEPT !.glob = << <<"seed", c.s>> >>]
    [] c.k = "GDraw"  -> [st EXCEPT !.glob = Append(@, <<"draw", 1>>)]

Sim0 == [gens |-> <<<< <<"seed", 1>> >>, << <<"seed", 2>> >>>>, glob |-> << <<"seed", 0>> >>]
=============================================================================
