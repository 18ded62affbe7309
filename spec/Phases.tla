------------------------------- MODULE Phases -------------------------------
(***************************************************************************)
(* A phased project, as the agents' readiness oracle sees it.  The state   *)
(* is the sequence of phase files in canonical order (major, then decimal  *)
(* sub-phases, then lettered ones); each has a status, prerequisites (ids, *)
(* possibly of phases that do not exist), whether its prerequisite prose   *)
(* can be read by a machine, and whether it left a learnings document.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Statuses == {"not started", "in progress", "complete", "unknown"}
Ids(st) == {st[i].id : i \in 1..Len(st)}
Pos(st, id) == CHOOSE i \in 1..Len(st) : st[i].id = id
Rec(st, id) == st[Pos(st, id)]

Closed(r) == r.status = "complete" /\ r.learn
Issues(r) == (IF r.status # "complete" THEN 1 ELSE 0) + (IF ~r.learn THEN 1 ELSE 0)

\* prerequisites are listed in canonical order by whoever builds the state
Range(s) == {s[i] : i \in 1..Len(s)}
Unknown(st, r) == {p \in Range(r.prereqs) : p \notin Ids(st)}
Unclosed(st, r) == {p \in Range(r.prereqs) : p \in Ids(st) /\ ~Closed(Rec(st, p))}
Eligible(st, r) == r.status = "not started" /\ r.clear /\ Unknown(st, r) = {} /\ Unclosed(st, r) = {}

FilterSeq(st, T(_)) ==
  LET RECURSIVE F(_) F(i) == IF i = 0 THEN <<>> ELSE F(i - 1) \o (IF T(st[i]) THEN <<st[i].id>> ELSE <<>>)
  IN  F(Len(st))
Frontier(st) == FilterSeq(st, LAMBDA r : Eligible(st, r))
Waiting(st) == FilterSeq(st, LAMBDA r : r.status = "not started" /\ ~Eligible(st, r))
Unreadable(st) == {st[i].id : i \in {j \in 1..Len(st) : ~st[j].clear}}
Unlocked(st, c) == FilterSeq(st, LAMBDA r : Eligible(st, r) /\ c \in Range(r.prereqs))

\* the answer to a query; target and completed are ids or "" for none
Answer(st, target, completed) ==
  LET none == [status |-> "", phase |-> "", choices |-> <<>>, blocked |-> {}] IN
  IF Len(st) = 0 THEN [none EXCEPT !.status = "error"]
  ELSE IF completed # "" /\ completed \notin Ids(st) THEN [none EXCEPT !.status = "error"]
  ELSE IF target # "" /\ target \notin Ids(st) THEN [none EXCEPT !.status = "error"]
  ELSE IF target # "" THEN
    LET r == Rec(st, target) IN
    IF Eligible(st, r) THEN [none EXCEPT !.status = "ready", !.phase = target]
    ELSE IF r.status # "not started" \/ ~r.clear THEN [none EXCEPT !.status = "blocked", !.blocked = {target}]
    ELSE [none EXCEPT !.status = "blocked", !.blocked = Unknown(st, r) \cup Unclosed(st, r)]
  ELSE
    LET un == IF completed = "" THEN <<>> ELSE Unlocked(st, completed)
        cand == IF un = <<>> THEN Frontier(st) ELSE un
    IN  IF Len(cand) = 1 THEN [none EXCEPT !.status = "ready", !.phase = cand[1]]
        ELSE IF Len(cand) > 1 THEN [none EXCEPT !.status = "choose", !.choices = cand]
        ELSE [none EXCEPT !.status = "blocked",
                          !.blocked = IF Waiting(st) = <<>> THEN {"(none)"} ELSE Range(Waiting(st))]

-----------------------------------------------------------------------------
\* what agents and people do to the project
Apply(st, o) ==
  CASE o.op = "new" -> o.st
    [] o.op = "status" -> [st EXCEPT ![Pos(st, o.id)].status = o.x]
    [] o.op = "learn" -> [st EXCEPT ![Pos(st, o.id)].learn = o.x]
    [] o.op = "prereqs" -> [st EXCEPT ![Pos(st, o.id)].prereqs = o.x, ![Pos(st, o.id)].clear = o.clear]
    [] OTHER -> st
=============================================================================
