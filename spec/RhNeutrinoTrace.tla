-------------------------- MODULE RhNeutrinoTrace --------------------------
EXTENDS RhNeutrino, TraceLib
VARIABLES l, st
Row(want, got, n, tol) == Len(got) = n /\ Len(want) = n /\ \A i \in 1..n : RClose(got[i], want[i], tol, 0)
Tol(s, c) == CASE HasFactor(c) -> IF RLt(s.mx, 1776) THEN "5/1000" ELSE "1/20" [] c.kind = "vll" -> "1e-4" [] OTHER -> "1e-9"
Want(s, e, i) == LET c == Channel(s.n, e.names[i]) IN Width(s, c, e.res.factors[i])
Agree(s, e) == \A i \in 1..Len(e.names) : RClose(e.res.widths[i], Want(s, e, i), Tol(s, Channel(s.n, e.names[i])), 0)
Lines(s, kind) == CASE kind = "photon" -> PhotonLines(s) [] kind = "positron" -> PositronLines(s) [] OTHER -> NeutrinoLines(s)
Must(s, kind) == CASE kind = "positron" -> Lines(s, kind) \ {"e rho"}
                   [] kind = "neutrino" -> Lines(s, kind) \ {V[s.n] \o " rho", V[s.n] \o " omega", V[s.n] \o " phi"}
                   [] OTHER -> Lines(s, kind)
Checks(e) ==
  LET s == st IN
  CASE e.op \in {"new", "flavor"} -> [Accepted |-> IF Number(e.fl) = 0 THEN e.out = "raise" /\ e.res.error = "ValueError" ELSE e.out = "ok"]
    [] e.op \in {"mx", "theta"} -> [Accepted |-> e.out = "ok"]
    [] e.op = "unknown" -> [Refused |-> e.out = "raise" /\ e.res.error = "KeyError"]
    [] e.out # "ok" -> [Answers |-> FALSE]
    [] e.op = "info" ->
         [Reads |-> RClose(e.res.mx, s.mx, "1e-15", 0) /\ RClose(e.res.theta, s.theta, "1e-15", 0) /\ e.res.flavor = L[s.n],
          Channels |-> ToSet(e.res.states) = Names(s.n) /\ Len(e.res.states) = Cardinality(Names(s.n))]
    [] e.op = "widths" ->
         [Names |-> ToSet(e.res.names) = Names(s.n) \cup {"total"}, Widths |-> Agree(s, e),
          Total |-> RClose(e.res.total, RSum(e.res.all), "1e-12", 0),
          Fractions |-> e.res.zero = "1" \/ \A i \in 1..Len(e.names) : RClose(RMul(e.res.bfs[i], e.res.total), e.res.widths[i], "1e-9", 0)]
    [] e.op = "some" -> [Names |-> ToSet(e.res.names) = ToSet(e.names), Widths |-> Agree(s, e)]
    [] e.op = "lines" ->
         [Names |-> ToSet(e.res.names) \subseteq Lines(s, e.kind) /\ Must(s, e.kind) \subseteq ToSet(e.res.names),
          Energies |-> \A i \in 1..Len(e.res.names) : e.res.names[i] \in Names(s.n) /\ RClose(e.res.energies[i], LineOf(e.kind, s, e.res.names[i]), "1e-12", 0),
          Fractions |-> \A i \in 1..Len(e.res.names) : RClose(e.res.bfs[i], e.res.want[i], "1e-12", 0)]
    [] OTHER ->
         [Spectrum |-> \A r \in 1..Len(e.res.rows) : Row(e.res.component[r], e.res.rows[r], Len(e.es), IF e.factor = "1" THEN "2/1000" ELSE "1e-4"),
          Total |-> \A r \in 1..Len(e.res.total) : Row(e.res.sum[r], e.res.total[r], Len(e.es), "1e-9")]
TInit == l = 1 /\ st = Fresh /\ CountInit
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] s2 == ApplyR(st, e) c == Checks(e) IN Report(l, c) /\ Count(c) /\ st' = s2
         /\ l' = l + 1
TraceAccepted == Accepted(Len(Trace))
=============================================================================
