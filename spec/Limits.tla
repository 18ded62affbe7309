------------------------------- MODULE Limits -------------------------------
(***************************************************************************)
(* Indirect-detection limits of a Theory model: the spectrum a detector    *)
(* sees, the flux in an energy bin, and the limits derived from a          *)
(* measurement, from an observation with a background, and from Fisher     *)
(* forecasting.  The model state and its operations are Theory's.          *)
(*                                                                         *)
(* Theory's total spectrum is affine in the energy, A(ecm) + B(ecm) e, so  *)
(* what the detector sees has a closed form: with a constant relative      *)
(* resolution r the true energy behind a measured e is e/v with v normal   *)
(* of mean 1 and width r, hence  conv(e) = A E[1/v] + B e E[1/v^2].        *)
(***************************************************************************)
EXTENDS Theory, TLC

Pi4 == RMul(4, RPi)

\* E[1/v^j] for v = 1 + r t, t standard normal: a trapezoid in t is exact beyond double precision
GT == [k \in 1..65 |-> RDiv(k - 33, 4)]
GW == [k \in 1..65 |-> RDiv(RExp(RDiv(RMul(GT[k], GT[k]), -2)), RMul(4, RSqrt(RMul(2, RPi))))]
KernOf(r, j) == RSum([k \in 1..65 |-> RDiv(GW[k], RPow(RAdd(1, RMul(r, GT[k])), j))])
KernTab == [r \in {"1/20", "1/12"} |-> <<KernOf(r, 1), KernOf(r, 2)>>]
Kern(r, j) == IF r \in DOMAIN KernTab THEN KernTab[r][j] ELSE KernOf(r, j)

InvSqrt2Pi == RDiv(1, RSqrt(RMul(2, RPi)))
\* the detector's response: a normal density of mean etrue and relative width r
Response(em, etrue, r) ==
  LET s == RMul(etrue, r) IN
  IF REq(s, 0) THEN "0"
  ELSE RDiv(RMul(InvSqrt2Pi, RExp(RRound(RDiv(RPow(RSub(em, etrue), 2), RMul(-2, RPow(s, 2)))))), RAbs(s))
ResponseIn(lo, hi, etrue, r) ==  \* integrated over measured energies lo..hi
  LET z(x) == RErf(RDiv(RSub(x, etrue), RMul(RSqrt(2), RMul(etrue, r))))
  IN  RDiv(RSub(z(hi), z(lo)), 2)

Part(st, pt, ecm) == TotalDnde(st, pt, 0, ecm)
Slope(st, pt, ecm) == RSub(TotalDnde(st, pt, 1, ecm), TotalDnde(st, pt, 0, ecm))

\* photons per annihilation in a line: two when the final state is a pair of photons
Mult(c) == IF c = "g g" THEN 2 ELSE 1
LineWeight(st, c, ecm) == RMul(Mult(c), Bf(st, Idx(st, c), ecm))
LineSeq(st, pt) == LET RECURSIVE F(_) F(i) == IF i = 0 THEN <<>> ELSE F(i - 1) \o (IF st.ch[i] \in LineChan(st, pt) THEN <<st.ch[i]>> ELSE <<>>)
                   IN F(N(st))

Continuum(st, pt, e, ecm, r) ==
  RAdd(RMul(Part(st, pt, ecm), Kern(r, 1)), RMul(RMul(Slope(st, pt, ecm), e), Kern(r, 2)))
Conv(st, pt, e, ecm, r) ==
  RAdd(Continuum(st, pt, e, ecm, r),
       LET ls == LineSeq(st, pt) IN
       RSum([i \in 1..Len(ls) |-> RMul(LineWeight(st, ls[i], ecm), Response(e, LineEnergy(st, pt, ls[i], ecm), r))]))
\* photons of the continuum, and of the lines, between lo and hi
ContIn(st, pt, lo, hi, ecm, r) ==
  RAdd(RMul(RMul(Part(st, pt, ecm), Kern(r, 1)), RSub(hi, lo)),
       RMul(RMul(Slope(st, pt, ecm), Kern(r, 2)), RDiv(RSub(RMul(hi, hi), RMul(lo, lo)), 2)))
LinesIn(st, pt, lo, hi, ecm, r) ==
  LET ls == LineSeq(st, pt) IN
  RSum([i \in 1..Len(ls) |-> RMul(LineWeight(st, ls[i], ecm), ResponseIn(lo, hi, LineEnergy(st, pt, ls[i], ecm), r))])
ConvIn(st, pt, lo, hi, ecm, r) == RAdd(ContIn(st, pt, lo, hi, ecm, r), LinesIn(st, pt, lo, hi, ecm, r))

-----------------------------------------------------------------------------
\* kinematics and the particle-physics factor of the flux (dark matter not its own antiparticle)
Ecm(st, vx) == RMul(RMul(2, st.mx), RAdd(1, RDiv(RMul(vx, vx), 2)))
FluxFactor(st, t) ==
  RMul(RDiv(t.dOmega, RMul(Pi4, st.mx)),
       IF st.kind = "ann" THEN RDiv(t.J, RMul(4, st.mx)) ELSE t.D)

\* a measurement: data are energy^power * flux at the centre of each bin
Bins(m) == Len(m.lows)
Centre(m, b) == RDiv(RAdd(m.lows[b], m.highs[b]), 2)
MFlux(m, b) == RDiv(m.data[b], RPow(Centre(m, b), m.power))
MUpper(m, b) == RSub(RDiv(m.upper[b], RPow(Centre(m, b), m.power)), MFlux(m, b))
MLower(m, b) == RSub(MFlux(m, b), RDiv(m.lower[b], RPow(Centre(m, b), m.power)))
Width(m, b) == RSub(m.highs[b], m.lows[b])

Phi(st, t, m, r, b) == RMul(FluxFactor(st, t), ConvIn(st, "g", m.lows[b], m.highs[b], Ecm(st, t.vx), r))
PhiMax(t, m, ns, b) == RMul(RMul(t.dOmega, Width(m, b)), RAdd(MFlux(m, b), RMul(ns, MUpper(m, b))))

MinSeq(s) == LET RECURSIVE F(_) F(i) == IF i = 0 THEN "inf" ELSE RMin(s[i], F(i - 1)) IN F(Len(s))
MaxSeq(s) == LET RECURSIVE F(_) F(i) == IF i = 0 THEN "-inf" ELSE RMax(s[i], F(i - 1)) IN F(Len(s))

OneBin(st, t, m, r, ns) ==
  MinSeq([b \in 1..Bins(m) |-> LET f == Phi(st, t, m, r, b) IN IF RLt(0, f) THEN RDiv(PhiMax(t, m, ns, b), f) ELSE "inf"])
Chi2Obs(st, t, m, r) ==
  RSum([b \in 1..Bins(m) |->
     LET w == RMul(t.dOmega, Width(m, b))
         d == RMax(0, RSub(Phi(st, t, m, r, b), RMul(w, MFlux(m, b))))
     IN  RPow(RDiv(d, RMul(w, MUpper(m, b))), 2)])
NormCdf(x) == RDiv(RAdd(1, RErf(RDiv(x, RSqrt(2)))), 2)
\* cumulative chi-squared distribution with k degrees of freedom
GammaHalf(k) == LET RECURSIVE G(_) G(j) == IF j = 1 THEN RSqrt(RPi) ELSE IF j = 2 THEN "1" ELSE RMul(RDiv(j - 2, 2), G(j - 2)) IN G(k)
Chi2Cdf(k, x) ==
  LET h == RDiv(x, 2)
      RECURSIVE F(_)
      F(j) == IF j = 1 THEN RErf(RSqrt(h)) ELSE IF j = 2 THEN RSub(1, RExp(RNeg(h)))
              ELSE RSub(F(j - 2), RDiv(RMul(RPow(RSqrt(h), j - 2), RExp(RNeg(h))), GammaHalf(j)))
  IN  F(k)

\* the slack of a model whose own cross section is used: > 0 allowed
BinSlack(st, t, m, r, ns) ==
  LET ecm == Ecm(st, t.vx)  sv == RMul(Total(st, ecm), t.vx) IN
  MinSeq([b \in 1..Bins(m) |-> LET f == RMul(sv, Phi(st, t, m, r, b))
                               IN IF RLt(0, f) THEN RSub(PhiMax(t, m, ns, b), f) ELSE "inf"])

-----------------------------------------------------------------------------
\* unbinned: signal over root background in the best window of the grid, constant effective area
\* and background
Obs == {"area", "bg", "tobs"}
Window(st, t, o, lo, hi) ==
  RDiv(RMul(o.area, ConvIn(st, "g", lo, hi, Ecm(st, t.vx), o.r)), RSqrt(RMul(RMul(o.area, o.bg), RSub(hi, lo))))
BestWindow(st, t, o) ==
  MaxSeq([i \in 1..(Len(o.grid) - 1) |-> MaxSeq([k \in 1..(Len(o.grid) - i) |-> Window(st, t, o, o.grid[i], o.grid[i + k])])])
Unbinned(st, t, o, ns) ==
  LET halo == IF st.kind = "ann" THEN t.J ELSE t.D
      pp == IF st.kind = "ann" THEN RMul(4, RPow(st.mx, 2)) ELSE st.mx
  IN  RDiv(RMul(RMul(RMul(pp, Pi4), ns), 1), RMul(RMul(RSqrt(RMul(o.tobs, t.dOmega)), halo), BestWindow(st, t, o)))

\* Fisher: a rate and one background normalisation, continuum only, constant area and background
PrefSignal(st, t) == FluxFactor(st, t)
FisherRateVar(st, t, o, lo, hi) ==
  LET ecm == Ecm(st, t.vx)
      a == RMul(PrefSignal(st, t), RMul(Part(st, "g", ecm), Kern(o.r, 1)))
      b == RMul(PrefSignal(st, t), RMul(Slope(st, "g", ecm), Kern(o.r, 2)))
      i0 == RSub(hi, lo)
      i1 == RDiv(RSub(RPow(hi, 2), RPow(lo, 2)), 2)
      i2 == RDiv(RSub(RPow(hi, 3), RPow(lo, 3)), 3)
      w == RDiv(RMul(o.area, o.tobs), RMul(o.bg, t.dOmega))
      f00 == RMul(w, RSum(<<RMul(RMul(a, a), i0), RMul(RMul(2, RMul(a, b)), i1), RMul(RMul(b, b), i2)>>))
      f01 == RMul(w, RAdd(RMul(a, i0), RMul(b, i1)))
      f11 == RMul(w, i0)
  IN  RDiv(f11, RSub(RMul(f00, f11), RMul(f01, f01)))

-----------------------------------------------------------------------------
\* a resolution that depends on the energy: relative width r0 + r1/E, an absolute width r0 E + r1.
\* A trapezoid in the true energy over ten widths around the measured one
RelWidth(o, e) == RAdd(o.r0, RDiv(o.r1, e))
ConvVarCont(st, pt, e, ecm, o) ==
  LET sg == RAdd(RMul(o.r0, e), o.r1)
      lo == RMax(RSub(e, RMul(10, sg)), "1/10")
      hi == RAdd(e, RMul(14, sg))
      n == 96
      d == RDiv(RSub(hi, lo), n)
      a == Part(st, pt, ecm)
      b == Slope(st, pt, ecm)
      F(k) == LET x == RAdd(lo, RMul(k, d)) IN RRound(RMul(RAdd(a, RMul(b, x)), Response(e, x, RelWidth(o, x))))
  IN  RMul(d, RSub(RSum([k \in 1..(n + 1) |-> F(k - 1)]), RDiv(RAdd(F(0), F(n)), 2)))
ConvVar(st, pt, e, ecm, o) ==
  RAdd(ConvVarCont(st, pt, e, ecm, o),
       LET ls == LineSeq(st, pt) IN
       RSum([i \in 1..Len(ls) |-> LET el == LineEnergy(st, pt, ls[i], ecm) IN
              RMul(LineWeight(st, ls[i], ecm), Response(e, el, RelWidth(o, el)))]))

-----------------------------------------------------------------------------
\* observations of arbitrary polynomial signals, backgrounds and effective areas (coefficient
\* sequences, constant first): windows of any shape, any number of background parameters
PEval(p, x) == RSum([i \in 1..Len(p) |-> RMul(p[i], RPow(x, i - 1))])
PMul(p, q) == TLCEval([k \in 1..(Len(p) + Len(q) - 1) |->
   RSum([i \in 1..Len(p) |-> IF k - i + 1 \in 1..Len(q) THEN RMul(p[i], q[k - i + 1]) ELSE "0"])])
PInt(p, lo, hi) == RSum([i \in 1..Len(p) |-> RMul(p[i], RDiv(RSub(RPow(hi, i), RPow(lo, i)), i))])
\* n points from lo to hi, equally spaced in the logarithm
Geom(lo, hi, n) == [k \in 1..n |-> RRound(RMul(lo, RExp(RMul(RLn(RDiv(hi, lo)), RDiv(k - 1, n - 1)))))]
GridOf(o) == IF o.ngrid = 0 THEN o.grid ELSE Geom(o.grid[1], o.grid[Len(o.grid)], o.ngrid)
SnrPoly(o, lo, hi) == RDiv(PInt(PMul(o.sig, o.area), lo, hi), RSqrt(PInt(PMul(o.bg, o.area), lo, hi)))
BestSnr(o) == LET g == TLCEval(GridOf(o)) IN
  MaxSeq([i \in 1..(Len(g) - 1) |-> MaxSeq([k \in 1..(Len(g) - i) |-> SnrPoly(o, g[i], g[i + k])])])
WindowLimit(st, o) ==
  LET halo == IF st.kind = "ann" THEN o.t.J ELSE o.t.D
      pp == IF st.kind = "ann" THEN RMul(4, RPow(st.mx, 2)) ELSE st.mx
  IN  RDiv(RMul(RMul(pp, Pi4), o.ns), RMul(RMul(RSqrt(RMul(o.tobs, o.t.dOmega)), halo), BestSnr(o)))

\* Fisher information of the rate and the background parameters (derivatives o.d) about a background o.bg
LGX == <<"0.013046735741414139961017993957773973", "0.067468316655507744633951655788253475", "0.16029521585048779688283631744256321",
         "0.28330230293537640460036702841710799", "0.42556283050918439455758699943514007", "0.57443716949081560544241300056485993",
         "0.71669769706462359539963297158289201", "0.83970478414951220311716368255743679", "0.93253168334449225536604834421174652",
         "0.98695326425858586003898200604222603">>
LGW == <<"0.033335672154344068796784404946665896", "0.074725674575290296572888169828848666", "0.10954318125799102199776746711408160",
         "0.13463335965499817754561346078473468", "0.14776211235737643508694649732566916", "0.14776211235737643508694649732566916",
         "0.13463335965499817754561346078473468", "0.10954318125799102199776746711408160", "0.074725674575290296572888169828848666",
         "0.033335672154344068796784404946665896">>
Quad10(F(_), lo, hi, n) == LET d == RDiv(RSub(hi, lo), n) IN
  RSum([j \in 1..(10 * n) |-> LET k == ((j - 1) % 10) + 1  b == (j - 1) \div 10 IN
    RRound(RMul(RMul(d, LGW[k]), F(RAdd(lo, RMul(d, RAdd(b, LGX[k]))))))])
Dirs(st, o) == TLCEval(<<[k \in 1..Len(o.sig) |-> RMul(RRound(FluxFactor(st, o.t)), o.sig[k])]>> \o o.d)
FisherPoly(st, o, i, j, lo, hi) ==
  LET ds == Dirs(st, o)  num == TLCEval(PMul(PMul(ds[i], ds[j]), o.area)) IN
  RMul(o.tobs, Quad10(LAMBDA x : RDiv(PEval(num, x), RMul(PEval(o.bg, x), o.t.dOmega)), lo, hi, 5))
Det2(m) == RSub(RMul(m[1][1], m[2][2]), RMul(m[1][2], m[2][1]))
Minor(m, i, j) == LET Skip(k, x) == IF k < x THEN k ELSE k + 1 IN
  [a \in 1..(Len(m) - 1) |-> [b \in 1..(Len(m) - 1) |-> m[Skip(a, i)][Skip(b, j)]]]
Det3(m) == RSum(<<RMul(m[1][1], Det2(Minor(m, 1, 1))), RNeg(RMul(m[1][2], Det2(Minor(m, 1, 2)))), RMul(m[1][3], Det2(Minor(m, 1, 3)))>>)
\* variance of the rate: the (1,1) element of the inverse
ForecastVar(st, o, lo, hi) ==
  LET n == Len(o.d) + 1
      u == TLCEval([i \in 1..n |-> TLCEval([j \in i..n |-> TLCEval(FisherPoly(st, o, i, j, lo, hi))])])
      m == [i \in 1..n |-> [j \in 1..n |-> IF i <= j THEN u[i][j] ELSE u[j][i]]]
  IN  CASE n = 1 -> RDiv(1, m[1][1]) [] n = 2 -> RDiv(m[2][2], Det2(m)) [] n = 3 -> RDiv(Det2(Minor(m, 1, 1)), Det3(m))
=============================================================================
