---------------------------- MODULE LimitsTrace ----------------------------
(* Validates the limits hazma reported against Limits, event by event. *)
EXTENDS Limits, TraceLib
VARIABLES l, st

\* discretisation of the library's convolution (a few points per resolution width)
Tol == "2e-3"
Near(x, y) == RClose(x, y, Tol, "1e-12")

ConvChecks(e) ==
  LET ecm == e.ecm  r == e.res
      peak == MaxSeq([k \in 1..Len(e.at) |-> Conv(st, e.particle, e.at[k], ecm, e.r)])
      \* interpolation between nodes: relative to the line's height over the band it curves in
      Ok(k) == RClose(r[k], Conv(st, e.particle, e.at[k], ecm, e.r), Tol,
                      RMul("1e-3", RSum([i \in 1..Len(LineSeq(st, e.particle)) |->
                          RMul(LineWeight(st, LineSeq(st, e.particle)[i], ecm),
                               RDiv(1, RMul(LineEnergy(st, e.particle, LineSeq(st, e.particle)[i], ecm), e.r)))])))
  IN  [Convolved |-> Len(r) = Len(e.at) /\ \A k \in 1..Len(r) : Ok(k)]

\* where exceeding is decided by less than the discretisation the answer may go either way
BinnedChecks(e) ==
  IF e.method = "1bin" THEN [MostConstrainingBin |-> Near(e.res, OneBin(st, e.t, e.m, e.r, e.ns))]
  ELSE LET obs == Chi2Obs(st, e.t, e.m, e.r) IN
       IF REq(obs, 0) THEN [Chi2Unconstrained |-> e.res = "inf"]
       ELSE IF ~RFin(e.res) THEN [Chi2Finite |-> FALSE]
       ELSE LET x == RMul(RMul(e.res, e.res), obs)
            IN  [Chi2AtConfidence |-> RClose(RSub(1, Chi2Cdf(Bins(e.m), x)), RSub(1, NormCdf(e.ns)), "5e-2", 0)
                                      \/ RLt(obs, "1e-3")]

SlackChecks(e) == LET s == BinSlack(st, e.t, e.m, e.r, e.ns) IN
  [SmallestSlack |-> RClose(e.res, s, Tol, RMul(Tol, MaxSeq([b \in 1..Bins(e.m) |-> PhiMax(e.t, e.m, e.ns, b)])))]

\* the same over a plane: mass along the columns, rate of the first channel along the rows
GridPoint(e, i, j) == [st EXCEPT !.mx = e.v1[i], !.a[1] = e.v2[j]]
SlackGridChecks(e) ==
  IF ~(Len(e.res) = Len(e.v2) /\ \A j \in 1..Len(e.res) : Len(e.res[j]) = Len(e.v1)) THEN [SlackImageShape |-> FALSE]
  ELSE [SlackImage |-> \A i \in 1..Len(e.v1), j \in 1..Len(e.v2) :
          RClose(e.res[j][i], BinSlack(GridPoint(e, i, j), e.t, e.m, e.r, e.ns), Tol,
                 RMul(Tol, MaxSeq([b \in 1..Bins(e.m) |-> PhiMax(e.t, e.m, e.ns, b)])))]

UnbinnedChecks(e) == LET b == BestWindow(st, e.t, e) IN
  IF ~RLt(0, b) THEN [NoSignalNoLimit |-> e.res \in {"inf", "nan"} \/ ~RFin(e.res)]
  ELSE [BestWindowLimit |-> Near(e.res, Unbinned(st, e.t, e, e.ns))]

FisherChecks(e) ==
  IF \E c \in LineChan(st, "g") : Open(st, Idx(st, c), Ecm(st, e.t.vx)) \/ REq(Total(st, Ecm(st, e.t.vx)), 0) THEN <<>>
  ELSE IF REq(Total(st, Ecm(st, e.t.vx)), 0) THEN <<>>
  ELSE [FisherRate |-> Near(e.res, RMul(e.ns, RSqrt(FisherRateVar(st, e.t, e, 1, 10))))]

ConvVarChecks(e) ==
  [ConvolvedVarying |-> Len(e.res) = Len(e.at) /\ \A k \in 1..Len(e.at) :
     RClose(e.res[k], ConvVar(st, e.particle, e.at[k], e.ecm, e), Tol,
            RMul("1e-3", RSum([i \in 1..Len(LineSeq(st, e.particle)) |->
                RDiv(LineWeight(st, LineSeq(st, e.particle)[i], e.ecm),
                     RMul(2, RMul(LineEnergy(st, e.particle, LineSeq(st, e.particle)[i], e.ecm), e.r0)))])))]
WindowChecks(e) == [BestOfAllWindows |-> RClose(e.res, WindowLimit(st, e), "1e-3", 0)]
ForecastChecks(e) == [RateMarginalised |-> RClose(e.res, RMul(e.ns, RSqrt(ForecastVar(st, e, 1, 10))), "2e-3", 0)]

Checks(e) ==
  IF e.op \in {"new", "set", "setmx"} THEN <<>>
  ELSE IF e.out # "ok" THEN [Answers |-> FALSE]
  ELSE [Answers |-> TRUE, ArgumentsKept |-> e.kept = "1", ParametersKept |-> e.same = "1" \/ e.op = "slackgrid"] @@
       CASE e.op = "conv" -> ConvChecks(e)
         [] e.op = "binned" -> BinnedChecks(e)
         [] e.op = "slack" -> SlackChecks(e)
         [] e.op = "slackgrid" -> SlackGridChecks(e)
         [] e.op = "unbinned" -> UnbinnedChecks(e)
         [] e.op = "fisher" -> FisherChecks(e)
         [] e.op = "convvar" -> ConvVarChecks(e)
         [] e.op = "window" -> WindowChecks(e)
         [] e.op = "forecast" -> ForecastChecks(e)

TInit == l = 1 /\ st = [kind |-> "none", ch |-> <<>>] /\ CountInit
TNext == /\ l <= Len(Trace)
         /\ LET c == Checks(Trace[l]) IN Report(l, c) /\ Count(c)
         /\ st' = IF Trace[l].op = "slackgrid"   \* a scan leaves the model at its last point
                  THEN [st EXCEPT !.mx = Trace[l].v1[Len(Trace[l].v1)], !.a[1] = Trace[l].v2[Len(Trace[l].v2)]]
                  ELSE Apply(st, Trace[l])
         /\ l' = l + 1
TraceAccepted == Accepted(Len(Trace))
=============================================================================
