-------------------------- MODULE PhaseSpaceTrace --------------------------
EXTENDS PhaseSpace, TraceLib
VARIABLES l, st

PointsOk(ps, ws) ==
  [PointHasEveryParticle |-> \A i \in 1..Len(ps) : Len(ps[i]) = NB(st) /\ \A j \in 1..NB(st) : Len(ps[i][j]) = 4,
   MomentumConserved |-> \A i \in 1..Len(ps) : Conserved(st, ps[i], "1e-9"),
   MassShell |-> \A i \in 1..Len(ps) : OnShell(st, ps[i], "1e-9"),
   EnergiesPositive |-> \A i \in 1..Len(ps) : \A j \in 1..NB(st) : RLt(0, ps[i][j][1]),
   WeightUniformInPhaseSpace |-> Len(ws) = Len(ps) /\ \A i \in 1..Len(ps) : RClose(ws[i], Weight(st, ps[i]), "1e-8", 0),
   PointsDiffer |-> \A i, j \in 1..Len(ps) : i < j => ps[i] # ps[j]]

PointChecks(e) == LET r == e.res IN
  PointsOk(r.ps, r.ws) @@ [SampleSize |-> Len(r.ps) = e.n, SeedReproduces |-> r.again, SeedMatters |-> r.other]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
BatchChecks(e) == LET r == e.res IN
  PointsOk(Cat(r.ps), Cat(r.ws)) @@
  [BatchCount |-> Len(r.ps) = (e.n + e.b - 1) \div e.b,
   BatchSize |-> \A k \in 1..Len(r.ps) : Len(r.ps[k]) = e.b /\ Len(r.ws[k]) = e.b,
   SeedReproduces |-> r.again]

\* the estimate is the mean of the weights of the sample (or the mean over the batches)
Estimate(r) == Mean([k \in 1..Len(r.ws) |-> Mean(r.ws[k])])
Uncertainty(r) == RDiv(RSqrt(RSum([k \in 1..Len(r.ws) |-> Sq(StdErr(r.ws[k]))])), Len(r.ws))
Norm(e) == CASE e.what = "integral" -> "1"
             [] e.what = "width" -> RDiv(1, RMul(2, st.cme))
             [] e.what = "xs" -> XsPrefactor(e.m1, e.m2, st.cme)
McChecks(e) == LET r == e.res IN
  [MeanOfWeights |-> RClose(r.value, RMul(Norm(e), Estimate(r)), "1e-9", 0),
   StandardError |-> RClose(r.error, RMul(Norm(e), Uncertainty(r)), "1e-6", RMul("1e-9", RMul(Norm(e), Estimate(r))))]

\* a seeded Monte Carlo may miss by statistics only: ten of its own standard errors
VolumeChecks(e) == LET want == Integral(st)  r == e.res IN
  IF e.method = "quad" THEN \* near threshold the requested absolute accuracy of the quadrature shows: its own error, up to a tenth
       [QuadratureVolume |-> RClose(r.value, want, "1e-5", RMax("1e-300", RMin(r.error, RDiv(want, 10))))]
  ELSE [SampledVolume |-> IF REq(want, 0) THEN REq(r.value, 0)
                          ELSE Small(RSub(r.value, want), RAdd(RMul(10, r.error), RMul("1e-5", want)))]

Pairs(n) == {<<i, j>> \in (1..n) \X (1..n) : i < j}
Other(a, b) == CHOOSE i \in 1..3 : i # a /\ i # b
OneDist(d, lo, hi, n, want) ==
  [BinCount |-> Len(d.bins) = n + 1 /\ Len(d.probs) = n,
   BinsCoverTheRange |-> Len(d.bins) = n + 1 /\ \A k \in 1..(n + 1) : RClose(d.bins[k], Edge(lo, hi, n, k - 1), "1e-9", RMul("1e-9", hi)),
   DistributionNormalised |-> RClose(RSum([k \in 1..Len(d.probs) |-> RMul(d.probs[k], RSub(d.bins[k + 1], d.bins[k]))]), 1, "1e-9", 0)
                              \/ \A k \in 1..Len(d.probs) : REq(d.probs[k], 0),
   DistributionShape |-> Len(d.probs) = n /\ \A k \in 1..n : RClose(d.probs[k], want[k], "1e-5", RMul("1e-7", want[(n + 1) \div 2]))]
\* a record of clauses that must hold for each member of a sequence of such records
Every(recs) == LET rs == TLCEval(recs) IN [c \in DOMAIN rs[1] |-> \A k \in 1..Len(rs) : rs[k][c]]
EdistChecks(e) ==
  IF Len(e.res.d) # NB(st) THEN [OneDistributionPerParticle |-> FALSE]
  ELSE Every([i \in 1..NB(st) |->
    LET lo == ELo(st, i)  hi == EHi(st, i) IN
    OneDist(e.res.d[i], lo, hi, e.nbins,
      IF e.method = "quad" THEN DensityBins(LAMBDA x : EnergyDensity(st, i, x), lo, hi, e.nbins)
      ELSE Normalised(Histogram([k \in 1..Len(e.res.ps) |-> e.res.ps[k][i][1]], e.res.ws, lo, hi, e.nbins),
                      [k \in 1..(e.nbins + 1) |-> Edge(lo, hi, e.nbins, k - 1)]))])
IdistChecks(e) ==
  LET keys == {<<e.res.d[k].pair[1] + 1, e.res.d[k].pair[2] + 1>> : k \in 1..Len(e.res.d)} IN
  IF keys # Pairs(NB(st)) \/ Len(e.res.d) # Cardinality(keys) THEN [OneDistributionPerPair |-> FALSE]
  ELSE Every([k \in 1..Len(e.res.d) |->
    LET i == e.res.d[k].pair[1] + 1  j == e.res.d[k].pair[2] + 1
        lo == MLo(st, i, j)  hi == MHi(st, i, j) IN
    OneDist(e.res.d[k], lo, hi, e.nbins,
      IF e.method = "quad" THEN DensityBins(LAMBDA w : MassDensity(st, Other(i, j), w), lo, hi, e.nbins)
      ELSE Normalised(Histogram([n \in 1..Len(e.res.ps) |-> RSqrt(RAbs(Lnorm(Plus(e.res.ps[n][i], e.res.ps[n][j]))))], e.res.ws, lo, hi, e.nbins),
                      [n \in 1..(e.nbins + 1) |-> Edge(lo, hi, e.nbins, n - 1)]))])
DistChecks(e) ==
  LET r == e.res  xs == e.d.xs  ps == Normalised(e.d.ys, xs)
      same(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : RClose(a[k], b[k], "1e-10", "1e-12")
  IN [DistProbabilities |-> same(r.probs, ps), DistCentres |-> same(r.centres, Centres(xs)), DistBins |-> same(r.bins, xs),
      DistLimits |-> same(r.limits, <<xs[1], xs[Len(xs)]>>), DistLength |-> r.len = Len(ps),
      DistInterpolates |-> same(r.at, [k \in 1..Len(r.xs) |-> DistAt(xs, ps, r.xs[k])]),
      ExpectTrapz |-> RClose(r.trapz, ExpectTrapz(xs, ps, e.f), "1e-10", "1e-12"),
      ExpectWithArgs |-> RClose(r.args, RMul(3, ExpectTrapz(xs, ps, e.f)), "1e-10", "1e-12"),
      ExpectVector |-> same(r.vector, <<ExpectTrapz(xs, ps, e.f), RMul(2, ExpectTrapz(xs, ps, e.f))>>),
      ExpectSimps |-> Len(ps) < 5 \/ RClose(r.simps, ExpectSimps(xs, ps, e.f), "1e-10", "1e-12"),
      ExpectQuad |-> RClose(r.quad, ExpectQuad(xs, ps, e.f), "2e-2", "1e-6"),
      DistMethodNamed |-> r.bad, DistArgumentsKept |-> r.kept]

Checks(e) ==
  IF e.op \in {"new", "cme", "masses", "me"} THEN (IF e.out = "ok" THEN <<>> ELSE [Answers |-> FALSE])
  ELSE IF e.out # "ok" THEN [Answers |-> FALSE]
  ELSE [Answers |-> TRUE] @@
       CASE e.op = "points" -> PointChecks(e) [] e.op = "batches" -> BatchChecks(e)
         [] e.op = "mc" -> McChecks(e) [] e.op = "volume" -> VolumeChecks(e)
         [] e.op = "edist" -> EdistChecks(e) [] e.op = "idist" -> IdistChecks(e) [] e.op = "dist" -> DistChecks(e)
TInit == l = 1 /\ st = [cls |-> "none"] /\ CountInit
TNext == /\ l <= Len(Trace)
         /\ LET c == Checks(Trace[l]) IN Report(l, c) /\ Count(c)
         /\ st' = Apply(st, Trace[l])
         /\ l' = l + 1
TraceAccepted == Accepted(Len(Trace))
=============================================================================
