---------------------------- MODULE PhasesTrace ----------------------------
EXTENDS Phases, TraceLib
VARIABLES l, st

ToSet(s) == {s[i] : i \in 1..Len(s)}
Rank(id) == id \* only used through Pos
Checks(e) ==
  IF e.op # "resolve" THEN <<>>
  ELSE
  LET want == Answer(st, e.target, e.completed)  r == e.res IN
  IF e.out # "ok" THEN [Answers |-> FALSE]
  ELSE IF want.status = "error" THEN [UnknownPhaseIsAnError |-> r.status = "error" /\ e.code = 1]
  ELSE IF r.status # want.status THEN [Readiness |-> FALSE]
  ELSE
  [Answers |-> TRUE, Readiness |-> TRUE, UnknownPhaseIsAnError |-> TRUE,
   ExitCode |-> e.code = 0,
   ProjectUntouched |-> e.kept,
   FrontierIsExact |-> r.frontier = Frontier(st),
   ReadyPhase |-> want.status = "ready" => r.phase = want.phase,
   ChoicesInOrder |-> want.status = "choose" => r.choices = want.choices,
   BlockersNamed |-> want.status = "blocked" => ToSet(r.blockers) = want.blocked /\ \A i \in 1..Len(r.issues) : r.issues[i] > 0,
   PromptOnlyWhenReady |-> r.prompt = (want.status = "ready"),
   PromptPointsAtPhase |-> want.status = "ready" => r.points,
   PromptListsLearnings |-> want.status = "ready" => ToSet(r.learnings) = ToSet(Rec(st, want.phase).prereqs),
   UnreadableProseIsNoted |-> ToSet(r.noted) = Unreadable(st),
   PrereqIssuesCounted |-> (want.status = "blocked" /\ e.target # "" /\ e.target \notin want.blocked) =>
        \A i \in 1..Len(r.blockers) : LET p == r.blockers[i] IN
            r.issues[i] = IF p \in Ids(st) THEN Issues(Rec(st, p)) ELSE 1]

TInit == l = 1 /\ st = <<>> /\ CountInit
TNext == /\ l <= Len(Trace)
         /\ LET c == Checks(Trace[l]) IN Report(l, c) /\ Count(c)
         /\ st' = Apply(st, Trace[l])
         /\ l' = l + 1
TraceAccepted == Accepted(Len(Trace))
=============================================================================
