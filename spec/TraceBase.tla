----------------------------- MODULE TraceBase -----------------------------
(* What every trace specification shares: the recorded run, and reporting.  *)
EXTENDS TLC, Integers, Sequences, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* cl is a sequence of <<name, holds>>; failures are printed and counted by
\* the driver, validation goes on with the next step
Report(l, cl) == \A i \in DOMAIN cl : IF cl[i][2] THEN TRUE ELSE PrintT(<<"@@VIOL", l, cl[i][1]>>)

Has(s, x) == \E i \in DOMAIN s : s[i] = x
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
