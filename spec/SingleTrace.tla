---------------------------- MODULE SingleTrace -----------------------------
EXTENDS Single, TraceLib
VARIABLES l, st
Row(want, got, n, tol) == Len(got) = n /\ \A i \in 1..n : RClose(got[i], want[i], tol, 0)
Zero(n) == [i \in 1..n |-> "0"]
Checks(e) ==
  LET s == st IN
  CASE e.op \in {"new", "mx", "fs", "g"} -> [Accepted |-> e.out = "ok"]
    [] e.out # "ok" -> [Answers |-> FALSE]
    [] e.op = "info" ->
         [Channel |-> e.res.states = <<e.res.fs>> /\ e.res.words = s.fs, Threshold |-> RClose(e.res.threshold, Threshold(s.fs), "1e-12", 0),
          Mass |-> RClose(e.res.mx, s.mx, "1e-15", 0)]
    [] e.op = "rates" ->
         [OnlyChannel |-> e.res.names = <<e.res.fs, "total">>,
          Rate |-> RClose(e.res.rate, Rate(s, e.ecm), "1e-15", 0) /\ RClose(e.res.total, Rate(s, e.ecm), "1e-15", 0),
          Fraction |-> RClose(e.res.bf, Bf(s, e.ecm), "1e-15", 0)]
    [] e.op = "lines" ->
         [Present |-> IF HasLine(e.kind, s.fs) /\ Bf(s, e.ecm) = "1" THEN e.res.names = <<e.res.fs>> ELSE e.res.names \in {<<>>, <<e.res.fs>>},
          None |-> ~HasLine(e.kind, s.fs) => e.res.names = <<>>,
          Energy |-> (HasLine(e.kind, s.fs) /\ Bf(s, e.ecm) = "1" /\ e.res.names # <<>>) => RClose(e.res.energy, LineAt(e.kind, s, e.ecm), "1e-12", 0),
          Fraction |-> e.res.names # <<>> => RClose(e.res.bf, Bf(s, e.ecm), "1e-15", 0)]
    [] e.op = "conv" ->           \* height of the line: number of photons / (sqrt(2 pi) width energy)
         LET at == LineAt("photon", s, e.ecm) IN
         [Height |-> IF Bf(s, e.ecm) = "0" THEN REq(e.res.peak, 0)
                     ELSE RClose(e.res.peak, RDiv(Number("photon", s.fs), RMul(RSqrt(RMul(2, RPi)), RMul(e.width, at))), "1/30", 0)]
    [] e.op = "feff" ->           \* all energy goes into the products: the efficiency at their energy
         [Efficiency |-> REq(s.g, 0) \/ RLt(s.mx, RDiv(Threshold(s.fs), 2)) \/ RClose(e.res.eff, e.res.base, "1e-5", 0)]
    [] OTHER ->
         [Spectrum |-> IF Bf(s, e.ecm) = "1" THEN Row(e.res.component, e.res.rows, Len(e.es), "1e-9") ELSE Row(Zero(Len(e.es)), e.res.rows, Len(e.es), 0),
          Total |-> e.via = "parts" => (Len(e.res.total) = Len(e.res.rows) /\ \A i \in 1..Len(e.res.rows) : RClose(e.res.total[i], e.res.rows[i], "1e-12", 0))]
TInit == l = 1 /\ st = Fresh /\ CountInit
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] s2 == ApplyS(st, e) c == Checks(e) IN Report(l, c) /\ Count(c) /\ st' = s2
         /\ l' = l + 1
TraceAccepted == Accepted(Len(Trace))
=============================================================================
