------------------------------ MODULE TraceLib ------------------------------
(* Reading a recorded trace and reporting, per event, the clauses it breaks. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Rat

Trace == ndJsonDeserialize(IOEnv.TRACE)

Has(r, f) == f \in DOMAIN r

\* The clauses of `checks` (a record clause |-> BOOLEAN) that are FALSE are printed; the
\* verdict on one event never stops the validation of the rest of the trace.
Report(i, checks) ==
  LET bad == {c \in DOMAIN checks : ~checks[c]}
  IN  IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([i |-> i, clauses |-> bad]))

\* How often each clause was judged, kept in TLC register 1.
CountInit == TLCSet(1, <<>>)
Count(checks) ==
  LET old == TLCGet(1)
      keys == DOMAIN old \cup DOMAIN checks
  IN  TLCSet(1, [c \in keys |-> (IF c \in DOMAIN old THEN old[c] ELSE 0) + (IF c \in DOMAIN checks THEN 1 ELSE 0)])

Accepted(last) == PrintT("COUNT " \o ToJson(TLCGet(1))) /\ TLCGet("stats").diameter - 1 = last
=============================================================================
