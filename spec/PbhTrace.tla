------------------------------ MODULE PbhTrace ------------------------------
EXTENDS Pbh, TraceLib
VARIABLES l, st
Checks(e) ==
  CASE e.op = "badmass" -> [UntabulatedMassRefused |-> e.out = "raise", StateKept |-> e.kept = "1"]
    [] e.op = "assign" -> [FixedForLife |-> e.out = "raise" /\ e.res.error = "RuntimeError", StateKept |-> e.kept = "1"]
    [] e.op = "badkind" -> [UnknownKindRefused |-> e.out = "raise" /\ e.res.error = "ValueError"]
    [] e.out # "ok" -> [Answers |-> FALSE]
    [] e.op \in {"new", "mass", "fraction"} -> [Answers |-> TRUE]
    [] e.op = "widths" ->
         [Widths |-> DOMAIN e.res.w = {"all", "total"} /\ REq(e.res.w["all"], st.f) /\ REq(e.res.w["total"], st.f),
          Fractions |-> DOMAIN e.res.b = {"all"} /\ REq(e.res.b["all"], IF REq(st.f, 0) THEN 0 ELSE 1),
          FinalStates |-> e.res.fs = <<"all">>, NoLines |-> e.res.lines = "0",
          MassPrinted |-> RClose(e.res.g, Mass(st.kind, st.c), "1e-6", "0")]
    [] e.op = "spectrum" ->
         [Spectrum |-> Len(e.res) = Len(e.es) /\ \A i \in DOMAIN e.es : RClose(e.res[i], Spectrum(st, e.es[i]), "1e-9", "1e-300")]
TInit == l = 1 /\ st = [kind |-> "none", c |-> 0, f |-> "0"] /\ CountInit
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] s2 == Apply(st, e) c == Checks(e) IN Report(l, c) /\ Count(c) /\ st' = s2
         /\ l' = l + 1
TraceAccepted == Accepted(Len(Trace))
=============================================================================
