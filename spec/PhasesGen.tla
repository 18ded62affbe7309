----------------------------- MODULE PhasesGen -----------------------------
(* Flow: agents begin only what the oracle calls ready, finish it and write *)
(* learnings; model-checked for safety and for not getting stuck.           *)
(* Edit: people edit files in any way; every state with every query.        *)
(* Walk: long random histories over larger projects.                        *)
EXTENDS Phases, TLC, Json
CONSTANTS Mode, Size, Depth
VARIABLES st, hist

Order == <<"1", "1.1", "1A", "2", "2.10", "3", "10", "10B">>
Template(pre, clr) == [i \in 1..Size |-> [id |-> Order[i], status |-> "not started", prereqs |-> pre[i], clear |-> clr[i], learn |-> FALSE]]
Pre == {<< <<>>, <<"1">>, <<"1">>, <<"1.1", "1A">>, <<"2">>, <<"1">>, <<"2.10", "3">>, <<>> >>,
        << <<>>, <<>>, <<"1", "1.1">>, <<"1A">>, <<"1", "2">>, <<>>, <<"1A">>, <<"10">> >>,
        << <<>>, <<"1", "7">>, <<>>, <<"1A", "9C">>, <<"1">>, <<"2">>, <<"1.1", "2.10">>, <<"1">> >>}
Clr == {[i \in 1..8 |-> TRUE], [i \in 1..8 |-> i % 3 # 0], [i \in 1..8 |-> i # 2]}
Fresh == {Template(p, c) : p \in Pre, c \in Clr}
Start == IF Mode = "edit"
         THEN {[t EXCEPT ![1].status = a, ![1].learn = b, ![2].status = c, ![2].learn = d, ![3].status = e, ![3].learn = TRUE] :
                 t \in Fresh, a \in Statuses, b \in BOOLEAN, c \in Statuses, d \in BOOLEAN, e \in Statuses \ {"unknown"}}
         ELSE Fresh
Init == st \in Start /\ hist = IF Mode = "walk" THEN <<[op |-> "new", st |-> st]>> ELSE <<>>

AnyId == {""} \cup Ids(st) \cup {"7"}
Queries == {q \in [op : {"resolve"}, target : AnyId, completed : AnyId] : q.target = "" \/ q.completed \in {"", "7"}}
Edits == {[op |-> "status", id |-> i, x |-> s] : i \in Ids(st), s \in Statuses}
         \cup {[op |-> "learn", id |-> i, x |-> b] : i \in Ids(st), b \in BOOLEAN}
         \cup {[op |-> "prereqs", id |-> i, x |-> p, clear |-> b] : i \in Ids(st), b \in BOOLEAN,
                 p \in {<<>>, <<"1">>, <<"1", "1.1">>, <<"7">>, <<"1A", "2">>}}

\* an agent's move in the intended workflow
Begin(i) == /\ Answer(st, st[i].id, "").status = "ready"
            /\ st' = [st EXCEPT ![i].status = "in progress"]
Finish(i) == st[i].status = "in progress" /\ st' = [st EXCEPT ![i].status = "complete"]
Learn(i) == st[i].status # "not started" /\ ~st[i].learn /\ st' = [st EXCEPT ![i].learn = TRUE]

FlowNext == UNCHANGED hist /\ \E i \in 1..Len(st) : Begin(i) \/ Finish(i) \/ Learn(i)
EditNext == hist = <<>> /\ hist' = <<"done">> /\ UNCHANGED st
            /\ \E q \in Queries : PrintT("T " \o ToJson(<<[op |-> "new", st |-> st], q>>))
WalkNext == \/ Len(hist) < Depth /\ \E o \in {RandomElement(IF RandomElement(1..2) = 1 THEN Edits ELSE Queries)} :
                                    st' = Apply(st, o) /\ hist' = Append(hist, o)
            \/ Len(hist) = Depth /\ PrintT("B " \o ToJson(hist)) /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED st
Next == CASE Mode = "flow" -> FlowNext [] Mode = "edit" -> EditNext [] Mode = "walk" -> WalkNext

-----------------------------------------------------------------------------
\* safety of the workflow: whatever has been begun had everything closed out beforehand
StartedAfterPrereqs ==
  Mode = "flow" => \A i \in 1..Len(st) : st[i].status # "not started" =>
                      st[i].clear /\ \A p \in Range(st[i].prereqs) : p \in Ids(st) /\ Closed(Rec(st, p))
\* the workflow is never stuck while a readable phase has satisfiable prerequisites
Satisfiable ==
  LET RECURSIVE S(_, _) S(id, n) == n > 0 /\ id \in Ids(st) /\ Rec(st, id).clear /\ \A p \in Range(Rec(st, id).prereqs) : S(p, n - 1)
  IN  {id \in Ids(st) : S(id, Len(st) + 1)}
NeverStuck == Mode = "flow" =>
  \/ \A id \in Satisfiable : Closed(Rec(st, id))
  \/ Frontier(st) # <<>>
  \/ \E i \in 1..Len(st) : st[i].status = "in progress" \/ (st[i].status = "complete" /\ ~st[i].learn)
\* an answer is always exactly one of the three, and consistent with the frontier
Consistent == LET a == Answer(st, "", "") IN
  /\ a.status = "ready" <=> Len(Frontier(st)) = 1
  /\ a.status = "choose" <=> Len(Frontier(st)) > 1
  /\ \A id \in Ids(st) : Answer(st, id, "").status = "ready" <=> id \in Range(Frontier(st))
=============================================================================
