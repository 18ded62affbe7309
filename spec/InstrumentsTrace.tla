-------------------------- MODULE InstrumentsTrace --------------------------
EXTENDS Instruments, TraceLib
VARIABLES l, st
Near(x, y) == RClose(x, y, "1e-11", "1e-300")
All(got, want) == Len(got) = Len(want) /\ \A i \in DOMAIN want : Near(got[i], want[i])
Each(F(_), es) == [i \in DOMAIN es |-> F(es[i])]
Checks(e) ==
  IF e.op = "new" THEN <<>>
  ELSE IF e.op = "outside" THEN [OutsideIsNan |-> e.got = "nan"]
  ELSE IF e.out # "ok" THEN [Answers |-> FALSE]
  ELSE [Answers |-> TRUE] @@
    CASE e.op = "aeff" -> [EffectiveArea |-> All(e.res, Each(LAMBDA x : AEff(e.n, x), e.es)), SameShape |-> e.shape = "1"]
      [] e.op = "res" -> [Resolution |-> All(e.res, Each(LAMBDA x : Res(e.n, x), e.es)), SameShape |-> e.shape = "1"]
      [] e.op = "survey" -> LET s == Survey(e.n) t == SurveyTarget(e.n) IN
           [SurveyBins |-> All(e.res.lows, s.lows) /\ All(e.res.highs, s.highs),
            SurveyFluxes |-> All(e.res.fluxes, s.fluxes),
            SurveyErrors |-> All(e.res.upper, s.upper) /\ All(e.res.lower, s.lower),
            SurveyTargets |-> Near(e.res.t.J, t.J) /\ Near(e.res.t.D, t.D) /\ Near(e.res.t.dOmega, t.dOmega),
            SurveyResolution |-> All(e.res.eres, Each(LAMBDA x : Res(e.n, x), e.es))]
      [] e.op = "flux" -> [BackgroundFlux |-> All(e.res, Each(LAMBDA x : Flux(st, x), e.es)), SameShape |-> e.shape = "1"]
      [] e.op = "slopes" ->
           [DerivativeNames |-> DOMAIN e.res = DOMAIN Params(st),
            Derivatives |-> \A i \in 1..Len(st.p) : Names(st)[i] \in DOMAIN e.res =>
                              LET got == e.res[Names(st)[i]] IN
                              Len(got) = Len(e.es) /\ \A k \in DOMAIN e.es : RClose(got[k], Slope(st, i, e.es[k]), "1e-11", "1e-15")]
      [] e.op = "params" ->
           [ParameterNames |-> DOMAIN e.res.params = DOMAIN Params(st),
            ParameterValues |-> \A n \in DOMAIN e.res.params \cap DOMAIN Params(st) : Near(e.res.params[n], Params(st)[n]),
            Attributes |-> \A n \in DOMAIN Params(st) : n \in DOMAIN e.res.attrs /\ Near(e.res.attrs[n], Params(st)[n]),
            Validity |-> All(e.res.bounds, Validity(st))]
      [] e.op = "range" ->
           [BackgroundValue |-> \A k \in DOMAIN e.es : RLeq(e.lo, e.es[k]) /\ RLeq(e.es[k], e.hi) => Near(e.res[k], PolyAt(e.c, e.es[k])),
            WarnsOutside |-> (e.warned = "1") = (\E k \in DOMAIN e.es : RLt(e.es[k], e.lo) \/ RLt(e.hi, e.es[k]))]
      [] e.op = "shipped" ->
           [ShippedBackground |-> All(e.res, Each(LAMBDA x : Shipped(e.n, x), e.es)), ShippedRange |-> All(e.range, ShippedRange(e.n))]
      [] e.op = "units" -> [UnitConversion |-> RClose(e.res, IF e.to = "MeV^-2" THEN RDiv(e.x, HbarC2) ELSE RMul(e.x, HbarC2), "1e-3", "0")]
      [] e.op = "cone" -> [SolidAngle |-> RClose(e.res, Cone(e.r), "1e-11", "1e-15")]
      [] e.op = "halo" -> LET t == Halo(e.n) IN [PublishedTarget |-> Near(e.res.J, t.J) /\ Near(e.res.D, t.D) /\ Near(e.res.dOmega, t.dOmega)]
      [] e.op = "file" -> LET P == IF e.default = "1" THEN 2 ELSE e.power  n == Len(e.rows)
                              M(i) == RPow(RDiv(RAdd(e.rows[i][1], e.rows[i][2]), 2), P)  F(i, k) == RDiv(e.rows[i][k], M(i)) IN
           [FileBins |-> All(e.res.lows, [i \in 1..n |-> e.rows[i][1]]) /\ All(e.res.highs, [i \in 1..n |-> e.rows[i][2]]),
            FileFluxes |-> All(e.res.fluxes, [i \in 1..n |-> F(i, 3)]),
            FileErrors |-> Len(e.res.upper) = n /\ Len(e.res.lower) = n /\ \A i \in 1..n :
              RClose(e.res.upper[i], RSub(F(i, 4), F(i, 3)), "1e-9", RMul("1e-14", F(i, 3))) /\ RClose(e.res.lower[i], RSub(F(i, 3), F(i, 5)), "1e-9", RMul("1e-14", F(i, 3))),
            FileKept |-> REq(e.res.res, "1/4") /\ e.res.target = "1"]
      [] e.op = "target" -> [TargetKept |-> \A f \in {"J", "D", "dOmega"} : IF \E i \in DOMAIN e.have : e.have[i] = f THEN e.res[f] = "3/2" ELSE e.res[f] = "None",
                             TargetSpeed |-> Near(e.res.vx, "1/1000"), TargetPrints |-> e.res.printed = "1"]
TInit == l = 1 /\ st = [kind |-> "none", p |-> <<>>] /\ CountInit
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] c == Checks(e) IN Report(l, c) /\ Count(c) /\ st' = IF e.op = "new" THEN e.bg ELSE st
         /\ l' = l + 1
TraceAccepted == Accepted(Len(Trace))
=============================================================================
