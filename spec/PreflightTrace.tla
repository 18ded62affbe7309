--------------------------- MODULE PreflightTrace ---------------------------
EXTENDS Preflight, TraceLib
VARIABLES l, st
SetOf(q) == {q[i] : i \in 1..Len(q)}
Calls(e) == {[tool |-> c.tool, words |-> SetOf(c.words)] : c \in SetOf(e.calls)}
Checks(s, e) ==
  IF e.op # "run" THEN <<>>
  ELSE IF e.out # "ok" THEN [Answers |-> FALSE]
  ELSE IF e.bad # "" THEN [Answers |-> TRUE, UsageVerdict |-> e.code = Verdict(s, e) /\ e.rows = <<>> /\ e.calls = <<>>]
  ELSE
  [Answers |-> TRUE,
   GateRows |-> e.rows = Rows(s, e),
   GateVerdict |-> e.code = Verdict(s, e) /\ e.result = (IF Red(s, e) THEN "FAIL" ELSE "PASS"),
   GateCalls |-> Calls(e) = Asked(s, e),
   GateBase |-> e.base = Base(s),
   TreeUntouched |-> e.kept]
TInit == l = 1 /\ st = Green /\ CountInit
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] IN
            /\ LET c == Checks(st, e) IN Report(l, c) /\ Count(c)
            /\ st' = IF e.op = "start" THEN Green ELSE Apply(st, e)
         /\ l' = l + 1
TraceAccepted == Accepted(Len(Trace))
=============================================================================
