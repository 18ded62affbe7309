----------------------------- MODULE TitleTrace -----------------------------
EXTENDS Title, TraceLib
VARIABLES l, st
Checks(e) ==
  IF e.out # "ok" THEN [Answers |-> FALSE]
  ELSE LET t == TitleOf(e)  bad == Broken(t) IN
  [Answers |-> TRUE,
   TitleVerdict |-> e.code = ExitCode(e),
   TitleEchoed |-> t = <<>> \/ e.echo = t,
   TitleReport |-> t = <<>> \/ (e.accepted <=> bad = {}),
   OneLinePerViolation |-> t = <<>> \/ e.messages = Cardinality(bad),
   QuietStdout |-> ExitCode(e) = 0 \/ e.stdout = 0]
TInit == l = 1 /\ st = 0 /\ CountInit
TNext == /\ l <= Len(Trace)
         /\ LET c == Checks(Trace[l]) IN Report(l, c) /\ Count(c)
         /\ UNCHANGED st
         /\ l' = l + 1
TraceAccepted == Accepted(Len(Trace))
=============================================================================
