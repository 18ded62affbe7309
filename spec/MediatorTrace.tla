--------------------------- MODULE MediatorTrace ---------------------------
EXTENDS Mediator, TraceLib
VARIABLES l, st
Row(want, got, tol, abs) == Len(got) = Len(want) /\ \A i \in 1..Len(want) : RClose(got[i], want[i], tol, abs)
Uncoloured(ch) == ch \in {"pi0 g", "pi0 v"}
Near(s, ch, e, got, want) ==
  RClose(got, want, "1e-3", IF Scalar(s) /\ ch \in {"pi0 pi0", "pi pi"} /\ Above(s, ch, e) THEN RMul("1e-3", RMul(Inflow(s, e), Slack(s, ch, e))) ELSE 0)
Ninth(x) == RDiv(x, 9)
Spectrum(s, e) == [i \in 1..Len(e.es) |->
  RAdd(IF e.type = "fsr" THEN "0" ELSE RMul(Copies(e.name), e.res.component[i]), IF e.type = "decay" THEN "0" ELSE Fsr(s, e.name, e.q, e.es[i]))]
Scaled(k, xs) == [i \in 1..Len(xs) |-> RMul(k, xs[i])]
Fractions(s, order) == [i \in 1..Len(order) |-> IF order[i] = "none" THEN "0" ELSE RDiv(Width(s, order[i], Med(s)), Total(s))]
Order(s, kind) == IF kind = "positron" THEN <<"e e", "mu mu", "pi pi">>
                  ELSE IF Scalar(s) THEN <<"e e", "mu mu", "pi0 pi0", "pi pi", "g g">> ELSE <<"e e", "mu mu", "pi0 g", "pi pi", "none">>
Everything == {"pi pi", "mu mu", "pi0 pi0", "g g", "e e g", "pi pi g", "mu mu g"}
Asked(s, e, c) == IF Scalar(s) /\ e.kind = "photon" THEN ToSet(c.modes) = Everything
                  ELSE c.modes = <<IF e.mode = "default" THEN "total" ELSE e.mode>>
Called(s, e) == LET c == e.res.call IN
  /\ RClose(c.energy, IF e.name = "pi0 v" THEN Second(s, e.name, e.q) ELSE RDiv(e.q, 2), "1e-12", 0)
  /\ RClose(c.mass, Med(s), "1e-14", 0) /\ Row(Fractions(s, Order(s, e.kind)), c.fractions, "1e-3", "1e-3") /\ Asked(s, e, c)
Cascade(s, e) == [i \in 1..Len(e.es) |->
  IF e.name = "pi0 v" THEN RAdd(e.res.component[i], e.res.stub[i]) ELSE RMul(2, e.res.stub[i])]
Product(s, e) == [i \in 1..Len(e.es) |-> e.res.component[i]]
LineName(s, kind) == IF kind = "positron" THEN "e e" ELSE IF Scalar(s) THEN "g g" ELSE "pi0 g"
\* x / (2 K2(x))^2 int sigma z^2 (z^2-4) K1(x z) dz, at z = 2 + top w^3
Average(e, n) ==
  LET f(j) == LET z == e.zs[j + 1]  w == RDiv(j, n) IN
        Prod(<<e.res.sigma[j + 1], Sq(z), RSub(Sq(z), 4), RBesselK(1, RMul(e.x, z)), 3, e.top, Sq(w)>>)
  IN RDiv(RMul(e.x, Simpson(n, f)), Sq(RMul(2, RBesselK(2, e.x))))
Shown(s, e) ==
  [Reads |-> \A n \in ToSet(Params[s.cls]) : RClose(e.res.params[n], s.p[n], "1e-15", 0),
   Couplings |-> LET want == Effective(s) IN \/ Row(want, e.res.effective, "1e-12", 0)
                                            \/ (s.cls = "mixing" /\ Row(Scaled(-1, want), e.res.effective, "1e-12", 0)),
   States |-> ToSet(e.res.states) = States(s) /\ Len(e.res.states) = Cardinality(States(s))]
Held(s, e) == Shown(s, e) @@ [Cached |-> RClose(e.res.cached, e.res.total, "1e-13", 0)]
Checks(e) ==
  LET s == st IN
  CASE e.op = "new" /\ e.out = "ok" -> Held(ApplyM(s, e), e)
    [] e.op = "new" -> [Accepted |-> FALSE]
    [] e.op = "set" /\ e.name \in Fixed[s.cls] -> [Accepted |-> e.out = "raise" /\ e.res.error = "AttributeError"]
    [] e.op = "set" /\ e.out = "ok" -> Held(ApplyM(s, e), e)
    [] e.op = "set" -> [Accepted |-> FALSE]
    [] e.op = "photons" /\ e.type = "line" -> [Refused |-> e.out = "raise" /\ e.res.error = "ValueError"]
    [] e.out # "ok" -> [Answers |-> FALSE]
    [] e.op = "info" -> Shown(s, e)
    [] e.op = "widths" ->
         [Names |-> ToSet(e.res.names) = ToSet(Decays(s)) \cup {"total"} /\ Len(e.res.names) = Len(Decays(s)) + 1,
          Widths |-> \A i \in 1..Len(e.res.names) : e.res.names[i] = "total" \/ RClose(e.res.widths[i], Width(s, e.res.names[i], Med(s)), "1e-9", RMul("1e-9", Slack(s, e.res.names[i], Med(s)))),
          Total |-> \A i \in 1..Len(e.res.names) : e.res.names[i] = "total" => RClose(e.res.widths[i], RSum([j \in 1..Len(e.res.widths) |-> IF j = i THEN "0" ELSE e.res.widths[j]]), "1e-12", 0),
          Cached |-> \A i \in 1..Len(e.res.names) : e.res.names[i] = "total" => RClose(e.res.cached, e.res.widths[i], "1e-13", 0)]
    [] e.op = "sigma" ->
         [Sigma |-> Len(e.res.sigma) = Len(e.es) /\ \A i \in 1..Len(e.es) : LET w == Sigma(s, e.name, e.es[i]) IN
                      Near(s, e.name, e.es[i], e.res.sigma[i], w) \/ (Uncoloured(e.name) /\ Near(s, e.name, e.es[i], e.res.sigma[i], Ninth(w))),
          Colours |-> Uncoloured(e.name) => \A i \in 1..Len(e.es) : Near(s, e.name, e.es[i], e.res.sigma[i], Sigma(s, e.name, e.es[i]))]
    [] e.op = "self" -> [Self |-> \A i \in 1..Len(e.es) : RClose(e.res.sigma[i], SelfSigma(s, e.es[i]), "1/500", 0)]
    [] e.op = "back" -> [Back |-> \A i \in 1..Len(e.es) : RClose(e.res.sigma[i], Back(s, e.es[i]), "1e-4", 0)]
    [] e.op = "fsr" -> [Fsr |-> Row([i \in 1..Len(e.es) |-> Fsr(s, e.name, e.q, e.es[i])], e.res.rows, "1e-6", 0)]
    [] e.op = "photons" -> [Spectrum |-> Row(Spectrum(s, e), e.res.rows, "1e-6", 0)]
    [] e.op = "positrons" -> [Spectrum |-> Row(Product(s, e), e.res.rows, "1e-12", 0)]
    [] e.op = "cascade" ->
         [Asked |-> IF REq(Total(s), 0) THEN TRUE ELSE Called(s, e),
          Spectrum |-> IF REq(Total(s), 0) /\ e.name # "pi0 v" THEN \A i \in 1..Len(e.res.rows) : REq(e.res.rows[i], 0) ELSE Row(Cascade(s, e), e.res.rows, "1e-12", 0)]
    [] e.op = "lines" ->
         [Names |-> e.res.names = <<LineName(s, e.kind)>>,
          Energy |-> \A i \in 1..Len(e.res.names) : RClose(e.res.energies[i], IF LineName(s, e.kind) = "pi0 g" THEN Second(s, "pi0 g", e.q) ELSE RDiv(e.q, 2), "1e-12", 0),
          Fraction |-> \A i \in 1..Len(e.res.names) : RClose(e.res.bfs[i], e.res.want, "1e-12", 0)]
    [] OTHER -> [Thermal |-> LET w == Average(e, Len(e.zs) - 1)  whole == RDiv(RMul(w, Sq(RMul(2, RBesselK(2, e.x)))), e.x) IN
                              RClose(e.res.average, w, IF RLt(whole, "1e-6") THEN "1/5" ELSE "1/20", 0)]   \* the integrator stops at 1.5e-8
TInit == l = 1 /\ st = Fresh /\ CountInit
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] s2 == ApplyM(st, e) c == Checks(e) IN Report(l, c) /\ Count(c) /\ st' = s2
         /\ l' = l + 1
TraceAccepted == Accepted(Len(Trace))
=============================================================================
