----------------------------- MODULE GridTrace -----------------------------
EXTENDS Grid, TraceLib
VARIABLES l, st
Same(m, want) == Len(m) = Len(want) /\ \A j \in 1..Len(want) :
                   Len(m[j]) = Len(want[j]) /\ \A i \in 1..Len(want[j]) : RClose(m[j][i], want[j][i], "1e-12", "1e-12")
Checks(e) ==
  CASE e.op = "new" -> <<>>
    [] e.op = "constrain" /\ e.p1 = e.p2 -> [SameParameterRefused |-> e.out = "raise"]
    [] e.out # "ok" -> [Answers |-> FALSE]
    [] DOMAIN e.res # {"k1", "k2"} -> [EveryConstraintHasAnImage |-> FALSE]
    [] e.op = "constrain" -> [Images |-> \A c \in {"k1", "k2"} : Same(e.res[c], Image(st, e, c)), GridsKept |-> e.kept = "1"]
    [] e.op = "custom" -> [CustomImages |-> \A c \in {"k1", "k2"} : Same(e.res[c], Custom(e, c)), GridsKept |-> e.kept = "1"]
TInit == l = 1 /\ st = <<>> /\ CountInit
TNext == /\ l <= Len(Trace)
         /\ LET c == Checks(Trace[l]) IN Report(l, c) /\ Count(c)
         /\ st' = IF Trace[l].op = "new" THEN Trace[l].st ELSE st
         /\ l' = l + 1
TraceAccepted == Accepted(Len(Trace))
=============================================================================
