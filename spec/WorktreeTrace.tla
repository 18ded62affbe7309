--------------------------- MODULE WorktreeTrace ---------------------------
EXTENDS Worktree, TraceLib
VARIABLES l, st
Checks(s, e) ==
  IF e.op # "setup" THEN <<>>
  ELSE IF e.out # "ok" THEN [Answers |-> FALSE]
  ELSE LET a == Answer(s, e) IN
  [Answers |-> TRUE,
   SetupOutcome |-> (e.code = 0) = a.ok,
   JsonOnlyOnSuccess |-> e.json = a.ok /\ (a.ok \/ e.quiet),
   NothingElseTouched |-> e.kept] @@
  (IF a.ok /\ e.json THEN
  [BranchName |-> e.branch = a.branch,
   WorktreePlace |-> e.path = a.path /\ e.isthere,
   AtRemoteTrunk |-> e.head = a.commit /\ e.reported = a.commit,
   OnItsBranch |-> e.on = a.branch,
   OneBranchMade |-> e.newheads = <<a.branch>>] ELSE
  [NothingMade |-> a.ok \/ (e.newheads = <<>> /\ e.newtrees = 0)])
TInit == l = 1 /\ st = <<>> /\ CountInit
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] IN
            /\ LET c == Checks(st, e) IN Report(l, c) /\ Count(c)
            /\ st' = IF e.op = "new" THEN Start(e.main) ELSE Apply(st, e)
         /\ l' = l + 1
TraceAccepted == Accepted(Len(Trace))
=============================================================================
