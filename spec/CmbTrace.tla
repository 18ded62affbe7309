------------------------------ MODULE CmbTrace ------------------------------
EXTENDS Cmb, TraceLib
VARIABLES l, st
\* the library integrates to a relative 1e-3
Near(x, y) == RClose(x, y, "2e-3", "1e-60")
Checks(e) ==
  IF e.op \in {"new", "set", "setmx"} THEN <<>>
  ELSE IF REq(Total(st, EcmCmb(st, e.xkd)), 0) THEN <<>>
  ELSE IF e.out # "ok" THEN [Answers |-> FALSE]
  ELSE [Answers |-> TRUE, ParametersKept |-> e.same = "1"] @@
       (IF e.op = "feff"
        THEN [DepositionEfficiency |-> Near(e.res, IF e.particle = "both" THEN Both(st, e.xkd) ELSE Efficiency(st, e.particle, e.xkd))]
        ELSE [CmbBound |-> IF REq(Both(st, e.xkd), 0) THEN TRUE ELSE Near(e.res, CmbLimit(st, e.xkd, e.pann))])
TInit == l = 1 /\ st = [kind |-> "none", ch |-> <<>>] /\ CountInit
TNext == /\ l <= Len(Trace)
         /\ LET c == Checks(Trace[l]) IN Report(l, c) /\ Count(c)
         /\ st' = Apply(st, Trace[l])
         /\ l' = l + 1
TraceAccepted == Accepted(Len(Trace))
=============================================================================
