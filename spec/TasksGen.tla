------------------------------ MODULE TasksGen ------------------------------
EXTENDS Tasks, TLC, Json
CONSTANTS Mode, Depth
VARIABLES st, hist

Order == <<"1", "1.1", "1.10", "2", "2a", "3", "3a", "3b", "10">>
\* sub-tables of the canonical order
Picks == {<<>>, <<"1">>, <<"2", "2a", "10">>, <<"1.1", "1.10", "3">>, <<"3", "3a", "3b", "10">>, <<"1", "3b">>}
RowsOf(ids, f) == [i \in 1..Len(ids) |-> [id |-> ids[i], status |-> f[i]]]
Assign(n) == [1..n -> RowStatus]
Flats == UNION {{[phased |-> FALSE, missing |-> FALSE, phases |-> <<>>, rows |-> RowsOf(p, f)] : f \in Assign(Len(p))} : p \in Picks}
Two == {<<"1">>, <<"2", "2a">>}
PhasesOf(c, h, p, q, f, g) == <<[num |-> "01", complete |-> c[1], has |-> h[1], rows |-> RowsOf(p, f)],
                                [num |-> "02", complete |-> c[2], has |-> h[2], rows |-> RowsOf(q, g)],
                                [num |-> "10", complete |-> c[3], has |-> TRUE, rows |-> <<[id |-> "10.1", status |-> "open"]>>]>>
Phased == UNION {{[phased |-> TRUE, missing |-> FALSE, rows |-> <<>>, phases |-> PhasesOf(c, h, p, q, f, g)] :
             c \in [1..3 -> BOOLEAN], h \in {<<TRUE, TRUE>>, <<FALSE, TRUE>>, <<TRUE, FALSE>>}, f \in Assign(Len(p)), g \in Assign(Len(q))} :
             p \in Two, q \in Two}
Missing == {[phased |-> FALSE, missing |-> TRUE, phases |-> <<>>, rows |-> <<>>]}
Init == /\ st \in Flats \cup Phased \cup Missing
        /\ hist = IF Mode = "walk" THEN <<[op |-> "new", st |-> st]>> ELSE <<>>
Queries == {[op |-> "next", task |-> t] : t \in {"", "1", "2", "2a", "3b", "10", "1.1", "7"}}
Edits(s) == (IF s.phased THEN {[op |-> "phase", k |-> k, x |-> b] : k \in 1..3, b \in BOOLEAN}
                              \cup UNION {{[op |-> "row", k |-> k, i |-> i, x |-> x] : i \in 1..Len(s.phases[k].rows), x \in RowStatus} : k \in 1..3}
             ELSE {[op |-> "row", k |-> 0, i |-> i, x |-> x] : i \in 1..Len(s.rows), x \in RowStatus})
Pick(s) == IF Edits(s) # {} /\ RandomElement(1..2) = 1 THEN RandomElement(Edits(s)) ELSE RandomElement(Queries)
Next ==
  IF Mode = "edit" THEN hist = <<>> /\ hist' = <<"done">> /\ UNCHANGED st
                        /\ \E q \in Queries : PrintT("T " \o ToJson(<<[op |-> "new", st |-> st], q>>))
  ELSE IF Mode = "flow" THEN \* the workflow: do what the resolver says is next until it says done
       UNCHANGED hist /\ LET a == Answer(st, "") IN
         /\ a.status = "ready"
         /\ IF st.phased THEN st' = [st EXCEPT !.phases[Current(st)].rows[Find(Table(st, Current(st)), a.task)].status = "terminal"]
            ELSE st' = [st EXCEPT !.rows[Find(st.rows, a.task)].status = "terminal"]
  ELSE \/ Len(hist) < Depth /\ \E o \in {Pick(st)} : st' = Apply(st, o) /\ hist' = Append(hist, o)
       \/ Len(hist) = Depth /\ PrintT("B " \o ToJson(hist)) /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED st

\* nothing is started behind an open or blocked lower task, and "done" means everything is terminal
NothingSkipped == LET a == Answer(st, "")  k == Current(st) IN
  a.status \in {"ready", "blocked"} =>
     LET rows == Table(st, k)  i == Find(rows, a.task) IN
     i > 0 /\ rows[i].status # "terminal" /\ \A j \in 1..(i - 1) : rows[j].status = "terminal"
DoneMeansDone == LET a == Answer(st, "")  k == Current(st) IN
  (a.status = "done" /\ k >= 0) => \A i \in 1..Len(Table(st, k)) : Table(st, k)[i].status = "terminal"
\* asking for a row by its exact id reports that row and no other
ExactIds == \A q \in Queries : q.task # "" /\ Answer(st, q.task).task # "" => Answer(st, q.task).task = q.task
=============================================================================
