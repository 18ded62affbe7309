-------------------------------- MODULE Tasks --------------------------------
(***************************************************************************)
(* The task tables of a project, as the next-task resolver sees them.  A   *)
(* project is flat (one table) or phased (one table per phase, in the      *)
(* order of the phase numbers).  A table is a set of rows in canonical id  *)
(* order (numeric core, then letter suffix); rows may be written in any    *)
(* order.  A row is open, blocked or terminal.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RowStatus == {"open", "blocked", "terminal"}
\* state: [phased, phases: seq of [num, complete, has (its notes exist), rows], rows]
Table(st, k) == IF k = 0 THEN st.rows ELSE st.phases[k].rows

\* the phase worked on: the first that is not complete; 0 for a flat project, -1 when all are done
Current(st) ==
  IF ~st.phased THEN 0
  ELSE LET open == {k \in 1..Len(st.phases) : ~st.phases[k].complete}
       IN  IF open = {} THEN -1 ELSE CHOOSE k \in open : \A j \in open : k <= j

FirstOpen(rows) ==
  LET open == {i \in 1..Len(rows) : rows[i].status # "terminal"}
  IN  IF open = {} THEN 0 ELSE CHOOSE i \in open : \A j \in open : i <= j
Find(rows, id) == LET s == {i \in 1..Len(rows) : rows[i].id = id} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE

\* what is reported for one row
RowAnswer(row, phase) ==
  [status |-> CASE row.status = "terminal" -> "done" [] row.status = "blocked" -> "blocked" [] OTHER -> "ready",
   task |-> row.id, phase |-> phase]
None(status, phase) == [status |-> status, task |-> "", phase |-> phase]

Answer(st, task) ==
  LET k == Current(st) IN
  IF st.missing THEN None("error", "")
  ELSE IF k = -1 THEN None("done", "")
  ELSE LET rows == Table(st, k)  phase == IF k = 0 THEN "" ELSE st.phases[k].num IN
    IF k > 0 /\ ~st.phases[k].has THEN None("error", phase)
    ELSE IF Len(rows) = 0 THEN None("error", phase)
    ELSE IF task # "" THEN (LET i == Find(rows, task) IN IF i = 0 THEN None("error", phase) ELSE RowAnswer(rows[i], phase))
    ELSE LET i == FirstOpen(rows) IN IF i = 0 THEN None("done", phase) ELSE RowAnswer(rows[i], phase)
ExitCode(a) == IF a.status \in {"ready", "done"} THEN 0 ELSE 1

Apply(st, o) ==
  CASE o.op = "new" -> o.st
    [] o.op = "row" /\ o.k = 0 -> [st EXCEPT !.rows[o.i].status = o.x]
    [] o.op = "row" -> [st EXCEPT !.phases[o.k].rows[o.i].status = o.x]
    [] o.op = "phase" -> [st EXCEPT !.phases[o.k].complete = o.x]
    [] OTHER -> st
=============================================================================
