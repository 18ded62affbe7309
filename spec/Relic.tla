-------------------------------- MODULE Relic --------------------------------
(***************************************************************************)
(* Thermal relics: the equilibrium of a particle with the Standard Model   *)
(* bath, the thermally averaged cross section, the Boltzmann equation and  *)
(* the abundance left by it.                                               *)
(*                                                                         *)
(* A model is [mx, kind, a, p].  kind "tcs": <sigma v>(x) = a x^(-p);      *)
(* kind "xs": a cross section a (ecm/mx)^p above threshold.                *)
(* The effective degrees of freedom (sqrt g*, heff) come from the          *)
(* published table, held here as DofT (GeV), DofG, DofH.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils, Rat

Dof == JsonDeserialize(IOEnv.SMDOF)
NT == Len(Dof.t)
TMev(k) == RMul(1000, Dof.t[k])
MPl == "1.22091e22"
RhoCrit == "1.05375e-2"
S0 == "2891.2"
Sq(x) == RMul(x, x)
Pi2 == RMul(RPi, RPi)

\* the table cell of a temperature: 0 below, NT above
Cell(T) == IF RLt(T, TMev(1)) THEN 0 ELSE IF RLeq(TMev(NT), T) THEN NT
           ELSE LET RECURSIVE F(_, _) F(a, b) == IF b - a <= 1 THEN a ELSE LET m == (a + b) \div 2 IN IF RLeq(TMev(m), T) THEN F(m, b) ELSE F(a, m)
                IN F(1, NT)
\* a smooth interpolation stays near the values at the ends of its cell
Between(v, col, T) ==
  LET c == Cell(T) IN
  IF c = 0 THEN RClose(v, col[1], "1e-9", 0)
  ELSE IF c = NT THEN RClose(v, col[NT], "1e-9", 0)
  ELSE LET lo == RMin(col[c], col[c + 1])  hi == RMax(col[c], col[c + 1])  slack == RMul("1/50", hi)
       IN  RLeq(RSub(lo, slack), v) /\ RLeq(v, RAdd(hi, slack))
AtNode(v, col, k) == RClose(v, col[k], "1e-9", 0)

Entropy(T, h) == RMul(RMul("2/45", Pi2), RMul(h, RPow(T, 3)))
EntropyDeriv(T, h, dh) == RMul(RMul("2/45", Pi2), RMul(RAdd(RMul(dh, T), RMul(3, h)), Sq(T)))

-----------------------------------------------------------------------------
\* equilibrium densities: five terms of the Bose/Fermi expansion; massless: zeta(3)/pi^2 and 3/4 of it
Zeta3 == "1.2020569031595942853997381615"
SignOf(fermion, n) == IF fermion /\ n % 2 = 0 THEN -1 ELSE 1
Nbar(x, fermion) == RMul(RDiv(Sq(x), RMul(2, Pi2)),
  RSum([n \in 1..5 |-> RMul(RDiv(SignOf(fermion, n), n), RBesselK(2, RMul(n, x)))]))
\* d nbar / dx, from (x^2 K2(n x))' = -n x^2 K1(n x)
DNbar(x, fermion) == RNeg(RMul(RDiv(Sq(x), RMul(2, Pi2)),
  RSum([n \in 1..5 |-> RMul(SignOf(fermion, n), RBesselK(1, RMul(n, x)))])))
NbarOf(T, m, fermion) == IF REq(m, 0) THEN RDiv(IF fermion THEN RMul("3/4", Zeta3) ELSE Zeta3, Pi2) ELSE Nbar(RDiv(m, T), fermion)
Neq(T, m, g, fermion) == RMul(RMul(g, NbarOf(T, m, fermion)), RPow(T, 3))
NeqDeriv(T, m, g, fermion) ==
  RMul(g, RSub(RMul(3, RMul(Sq(T), NbarOf(T, m, fermion))), IF REq(m, 0) THEN "0" ELSE RMul(RMul(m, T), DNbar(RDiv(m, T), fermion))))
Yeq(n, s) == RDiv(n, s)
YeqDeriv(n, dn, s, ds) == RDiv(RSub(RMul(dn, s), RMul(n, ds)), Sq(s))

-----------------------------------------------------------------------------
\* thermal averages
GLX == <<"0.003435700407452537606938805764", "0.01801403636104310436616693440", "0.04388278587433702694265011880", "0.08044151408889058830273546914", "0.1268340467699246036928474648", "0.1819731596367424872736093350", "0.2445664990245864509959268346", "0.3131469556422902196637259115", "0.3861070744291774609597519023", "0.4617367394332513331226797953", "0.5382632605667486668773202047", "0.6138929255708225390402480977", "0.6868530443577097803362740885", "0.7554335009754135490040731654", "0.8180268403632575127263906650", "0.8731659532300753963071525352", "0.9195584859111094116972645309", "0.9561172141256629730573498812", "0.9819859636389568956338330656", "0.9965642995925474623930611942">>
GLW == <<"0.008807003569576059155930981176", "0.02030071490019347066551997614", "0.03133602416705453178475326760", "0.04163837078835237436237907162", "0.05096505990862021751837506774", "0.05909726598075920765618868886", "0.06584431922458831344924724986", "0.07104805465919102566464891776", "0.07458649323630187339391436852", "0.07637669356536292534904261430", "0.07637669356536292534904261430", "0.07458649323630187339391436852", "0.07104805465919102566464891776", "0.06584431922458831344924724986", "0.05909726598075920765618868886", "0.05096505990862021751837506774", "0.04163837078835237436237907162", "0.03133602416705453178475326760", "0.02030071490019347066551997614", "0.008807003569576059155930981176">>
Panels(F(_), lo, hi, n) == LET d == RDiv(RSub(hi, lo), n) IN
  RSum([j \in 1..(20 * n) |-> LET k == ((j - 1) % 20) + 1  b == (j - 1) \div 20 IN
    RRound(RMul(RMul(d, GLW[k]), F(RRound(RAdd(lo, RMul(d, RAdd(b, GLX[k])))))))])
Sigma(m, z) == RMul(m.a, RPow(z, m.p))
\* x / (4 K2(x)^2) int_2 sigma z^2 (z^2-4) K1(x z) dz; the kernel dies like exp(-x (z-2))
ThermalOf(m, x) ==
  IF m.kind = "tcs" THEN RMul(m.a, RPow(x, -m.p))
  ELSE IF RLt(300, x) THEN "0"
  ELSE RMul(RDiv(x, RMul(4, Sq(RBesselK(2, x)))),
            Panels(LAMBDA z : RMul(RMul(Sigma(m, z), RMul(Sq(z), RSub(Sq(z), 4))), RBesselK(1, RMul(x, z))), 2, RAdd(2, RDiv(50, x)), 3))

\* right-hand side and jacobian of the Boltzmann equation for W = ln Y against ln x
PrefC == RRound(RMul(RSqrt(RDiv(RPi, 45)), MPl))
Pref(m, x, g) == RDiv(RMul(PrefC, RMul(m.mx, g)), x)
BoltzmannRhs(m, x, g, sv, weq, w) == RNeg(RMul(RMul(Pref(m, x, g), sv), RSub(RExp(w), RExp(RSub(RMul(2, weq), w)))))
BoltzmannJac(m, x, g, sv, weq, w) == RNeg(RMul(RMul(Pref(m, x, g), sv), RAdd(RExp(w), RExp(RSub(RMul(2, weq), w)))))

-----------------------------------------------------------------------------
\* abundances.  grid: sequence of [x, g, sv, yeq] along ln x, equally spaced by h
LogTrapz(grid, h, F(_)) == RMul(h, RSub(RSum([k \in 1..Len(grid) |-> RRound(F(grid[k]))]), RDiv(RAdd(F(grid[1]), F(grid[Len(grid)])), 2)))
Alpha(m, grid, h) == LogTrapz(grid, h, LAMBDA c : RMul(Pref(m, c.x, c.g), c.sv))
Omega(m, y0) == RDiv(RMul(RMul(y0, m.mx), S0), RhoCrit)
SemiY(ystar, alpha) == RDiv(ystar, RAdd(1, RMul(ystar, alpha)))
\* freeze-out: x^2 Yeq' + lambda (delta(2+delta)/(1+delta)) <sigma v> Yeq^2 = 0
DeltaBar(d) == IF d = "none" THEN "1" ELSE RDiv(RMul(d, RAdd(2, d)), RAdd(1, d))
FreezeOut(m, c, d, dyeqdx) == RAdd(RMul(Sq(c.x), dyeqdx), RMul(RMul(RMul(Pref(m, c.x, c.g), c.x), RMul(DeltaBar(d), c.sv)), Sq(c.yeq)))

\* backward Euler for dY/dlnx = -c (Y^2 - Yeq^2): each step the positive root of a quadratic
EulerStep(m, hh, c, y) ==
  LET hc == RRound(RMul(hh, RMul(Pref(m, c.x, c.g), c.sv))) IN
  IF REq(hc, 0) THEN y
  ELSE RRound(RDiv(RSub(RSqrt(RAdd(1, RMul(RMul(4, hc), RAdd(y, RMul(hc, Sq(c.yeq)))))), 1), RMul(2, hc)))
Euler(m, grid, hh, step) ==
  FoldLeft(LAMBDA y, k : EulerStep(m, hh, grid[1 + k * step], y), grid[1].yeq, [k \in 1..((Len(grid) - 1) \div step) |-> k])
\* extrapolated from two step sizes
FinalY(m, grid, h) == LET fine == Euler(m, grid, h, 1)
                          coarse == Euler(m, grid, RMul(2, h), 2)
                      IN  RSub(RMul(2, fine), coarse)

Apply(st, o) ==
  CASE o.op = "new" -> o.st
    [] o.op = "mx" -> [st EXCEPT !.mx = o.x]
    [] o.op = "a" -> [st EXCEPT !.a = o.x]
    [] OTHER -> st
=============================================================================
