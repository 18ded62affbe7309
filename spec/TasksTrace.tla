----------------------------- MODULE TasksTrace -----------------------------
EXTENDS Tasks, TraceLib
VARIABLES l, st
Checks(e) ==
  IF e.op # "next" THEN <<>>
  ELSE IF e.out # "ok" THEN [Answers |-> FALSE]
  ELSE LET want == Answer(st, e.task)  r == e.res IN
  [Answers |-> TRUE,
   TaskStatus |-> r.status = want.status,
   TaskChosen |-> r.task = want.task,
   TaskPhase |-> want.status = "error" \/ r.phase = want.phase,
   TaskExitCode |-> e.code = ExitCode(want),
   TaskTitleAndSlug |-> want.task # "" => (r.title = "Title of " \o want.task /\ r.slug = e.slug),
   ProjectUntouched |-> e.kept]
TInit == l = 1 /\ st = <<>> /\ CountInit
TNext == /\ l <= Len(Trace)
         /\ LET c == Checks(Trace[l]) IN Report(l, c) /\ Count(c)
         /\ st' = Apply(st, Trace[l])
         /\ l' = l + 1
TraceAccepted == Accepted(Len(Trace))
=============================================================================
