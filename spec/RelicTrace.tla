----------------------------- MODULE RelicTrace -----------------------------
EXTENDS Relic, TraceLib
VARIABLES l, st
Near(a, b, t) == RClose(a, b, t, 0)
DofChecks(e) == LET r == e.res IN
  [SqrtGstarFromTable |-> Between(r.g, Dof.g, e.T), HeffFromTable |-> Between(r.h, Dof.h, e.T),
   EntropyDensity |-> Near(r.s, Entropy(e.T, r.h), "1e-9"),
   \* the slope of heff, from values a little to each side
   EntropyDerivative |-> RClose(r.ds, EntropyDeriv(e.T, r.h, RDiv(RSub(r.hu, r.hd), r.dT)), "1e-3", 0)]
NodeChecks(e) == LET r == e.res IN
  [SqrtGstarAtNodes |-> AtNode(r.g, Dof.g, e.k), HeffAtNodes |-> AtNode(r.h, Dof.h, e.k)]
NeqChecks(e) ==
  LET r == e.res  n == Neq(e.T, e.m, e.g, e.fermion)  dn == NeqDeriv(e.T, e.m, e.g, e.fermion) IN
  [EquilibriumDensity |-> Near(r.neq, n, "1e-8"), EquilibriumDensitySlope |-> Near(r.dneq, dn, "1e-8"),
   EquilibriumYield |-> Near(r.yeq, Yeq(n, r.s), "1e-8"),
   EquilibriumYieldSlope |-> RClose(r.dyeq, YeqDeriv(n, dn, r.s, r.ds), "1e-6", RMul("1e-8", RDiv(Yeq(n, r.s), e.T))),
   EquilibriumLog |-> RClose(RExp(r.weq), Yeq(n, r.s), "1e-7", 0),
   SlopeAgainstX |-> REq(e.m, 0) \/ Near(r.dyeqx, RNeg(RMul(RDiv(Sq(e.T), e.m), r.dyeq)), "1e-8"),
   ArraysLikeScalars |-> r.arrays]
TcsChecks(e) == [ThermalAverage |-> Near(e.res.sv, ThermalOf(st, e.x), "1e-5") \/ (REq(ThermalOf(st, e.x), 0) /\ REq(e.res.sv, 0))]
BoltzChecks(e) == LET r == e.res IN
  [RightHandSide |-> RClose(r.rhs, BoltzmannRhs(st, e.x, r.g, r.sv, r.weq, e.w), "1e-7", 0),
   Jacobian |-> RClose(r.jac, BoltzmannJac(st, e.x, r.g, r.sv, r.weq, e.w), "1e-7", 0)]
SemiChecks(e) ==
  LET r == e.res  c == r.at IN
  [FreezeOutTemperature |-> RLt(RMul(FreezeOut(st, c[1], e.delta, c[1].dy), FreezeOut(st, c[2], e.delta, c[2].dy)), 0),
   SemiAnalyticAbundance |-> Near(r.omega, Omega(st, SemiY(r.ystar, Alpha(st, r.grid, r.h))), "1e-2")]
FullChecks(e) == [BoltzmannAbundance |-> Near(e.res.omega, Omega(st, FinalY(st, e.res.grid, e.res.h)), "2e-2")]
Checks(e) ==
  IF e.op \in {"new", "mx", "a"} THEN <<>>
  ELSE IF e.out # "ok" THEN [Answers |-> FALSE]
  ELSE [Answers |-> TRUE, ModelKept |-> e.same] @@
       CASE e.op = "dof" -> DofChecks(e) [] e.op = "node" -> NodeChecks(e) [] e.op = "neq" -> NeqChecks(e)
         [] e.op = "tcs" -> TcsChecks(e) [] e.op = "boltz" -> BoltzChecks(e)
         [] e.op = "rd" /\ e.semi -> SemiChecks(e) [] e.op = "rd" -> FullChecks(e)
TInit == l = 1 /\ st = [kind |-> "none"] /\ CountInit
TNext == /\ l <= Len(Trace)
         /\ LET c == Checks(Trace[l]) IN Report(l, c) /\ Count(c)
         /\ st' = Apply(st, Trace[l])
         /\ l' = l + 1
TraceAccepted == Accepted(Len(Trace))
=============================================================================
