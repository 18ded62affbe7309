---------------------------- MODULE Instruments ----------------------------
(***************************************************************************)
(* What the gamma-ray telescopes, their backgrounds and their published    *)
(* measurements answer.  The state is the background model a user holds    *)
(* (parameters chosen at construction); telescopes, shipped measurements   *)
(* and unit conversions are constant functions.                            *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, Json, IOUtils, TLC

Tables == TLCEval(JsonDeserialize(IOEnv.INSTR))       \* exact copies of the published tables

\* linear between the rows; `out` says what happens beyond them
LineThrough(t, k, e) ==
  RAdd(t.y[k], RDiv(RMul(RSub(e, t.x[k]), RSub(t.y[k + 1], t.y[k])), RSub(t.x[k + 1], t.x[k])))
Rows(t) == Len(t.x)
Outside(t, e) == RLt(e, t.x[1]) \/ RLt(t.x[Rows(t)], e)
Segment(t, e) == IF RLt(e, t.x[1]) THEN 1 ELSE IF RLt(t.x[Rows(t)], e) THEN Rows(t) - 1
                 ELSE CHOOSE k \in 1..(Rows(t) - 1) : RLeq(t.x[k], e) /\ RLeq(e, t.x[k + 1])
Extend(t, e) == LineThrough(t, Segment(t, e), e)
ZeroOut(t, e) == IF Outside(t, e) THEN "0" ELSE Extend(t, e)

\* telescopes -------------------------------------------------------------
Telescopes == {"adept", "amego", "comptel", "all_sky_astrogam", "e_astrogam", "egret", "fermi",
               "gecco", "grams", "grams_upgrade", "mast", "pangu"}
AEff(n, e) == ZeroOut(Tables.aeff[n], e)

Fwhm == RDiv(1, RSqrt(RMul(8, RLn(2))))               \* standard deviations in a full width at half maximum
Resolutions == (Telescopes \cup {"gecco_large", "integral"})
Res(n, e) ==
  CASE n = "adept" -> RMul("3/10", Fwhm)
    [] n = "comptel" -> RMul("1/20", Fwhm)
    [] n = "egret" -> RMul("18/100", Fwhm)
    [] n = "fermi" -> "75/1000"
    [] n \in {"grams", "grams_upgrade"} -> "1/20"
    [] n = "pangu" -> "2/5"
    [] n = "gecco" -> RMul(Fwhm, Extend(Tables.eres[n], e))
    [] n = "all_sky_astrogam" -> Extend(Tables.eres["e_astrogam"], e)   \* no table of its own
    [] OTHER -> Extend(Tables.eres[n], e)

\* published measurements: energy^2 flux at the centre of a bin, ends of its error bar
Surveys == {"comptel", "egret", "fermi", "integral"}
SurveyTarget(n) ==
  CASE n = "comptel" -> [J |-> "9.308e28", D |-> "4.866e25", dOmega |-> "1.433"]
    [] n = "egret" -> [J |-> "1.253e28", D |-> "3.42e25", dOmega |-> "6.585"]
    [] n = "fermi" -> [J |-> "1.695e28", D |-> "3.563e25", dOmega |-> "10.82"]
    [] n = "integral" -> [J |-> "2.086e29", D |-> "7.301e25", dOmega |-> "0.5421"]
Mid2(o, b) == RPow(RDiv(RAdd(o.lows[b], o.highs[b]), 2), 2)
Survey(n) ==
  LET o == Tables.obs[n]  B == 1..Len(o.lows)
      f == [b \in B |-> RDiv(o.data[b], Mid2(o, b))]
  IN  [lows |-> o.lows, highs |-> o.highs, fluxes |-> f,
       upper |-> [b \in B |-> RSub(RDiv(o.upper[b], Mid2(o, b)), f[b])],
       lower |-> [b \in B |-> RSub(f[b], RDiv(o.lower[b], Mid2(o, b)))]]

\* background models ------------------------------------------------------
GcNames == <<"galactic_amplitude", "galactic_power_law_index", "galactic_exponential_cutoff",
             "galactic_exponential_index", "extra_galactic_amplitude", "extra_galactic_power_law_index">>
GeccoNames == <<"amplitude", "power_law_index">>
Names(bg) == IF bg.kind = "gc" THEN GcNames ELSE GeccoNames
Params(bg) == [n \in {Names(bg)[i] : i \in 1..Len(Names(bg))} |-> bg.p[CHOOSE i \in 1..Len(bg.p) : Names(bg)[i] = n]]
Validity(bg) == IF bg.kind = "gc" THEN <<"3/20", "5">> ELSE <<"1/5", "4000">>

\* e^-a, and (e/ec)^g
Fall(e, a) == RExp(RNeg(RMul(a, RLn(e))))
Ratio(e, ec, g) == RExp(RMul(g, RLn(RDiv(e, ec))))
Galactic(p, e) == RMul(RMul(p[1], Fall(e, p[2])), RExp(RNeg(Ratio(e, p[3], p[4]))))
Flux(bg, e) ==
  IF bg.kind = "gc" THEN RAdd(Galactic(bg.p, e), RMul(bg.p[5], Fall(e, bg.p[6])))
  ELSE RMul(bg.p[1], Fall(e, bg.p[2]))
\* the slope of the flux along each parameter
Slope(bg, i, e) ==
  LET p == bg.p
  IN  IF bg.kind = "gecco"
      THEN IF i = 1 THEN Fall(e, p[2]) ELSE RNeg(RMul(RLn(e), Flux(bg, e)))
      ELSE CASE i = 1 -> RMul(Fall(e, p[2]), RExp(RNeg(Ratio(e, p[3], p[4]))))
             [] i = 2 -> RNeg(RMul(RLn(e), Galactic(p, e)))
             [] i = 3 -> RMul(Galactic(p, e), RDiv(RMul(p[4], Ratio(e, p[3], p[4])), p[3]))
             [] i = 4 -> RNeg(RMul(Galactic(p, e), RMul(RLn(RDiv(e, p[3])), Ratio(e, p[3], p[4]))))
             [] i = 5 -> Fall(e, p[6])
             [] i = 6 -> RNeg(RMul(RLn(e), RMul(p[5], Fall(e, p[6]))))

PolyAt(c, e) == RSum([i \in 1..Len(c) |-> RMul(c[i], RPow(e, i - 1))])
\* shipped simple models
Shipped(n, e) == CASE n = "gecco" -> RDiv("8e-3", RMul(e, e))
                   [] n = "default" -> RDiv("2.74e-3", RMul(e, e))
                   [] n = "gc" -> Extend(Tables.bg["gc"], e)
ShippedRange(n) == CASE n = "gecco" -> <<"1/5", "4000">> [] n = "default" -> <<"0", "10000">>
                     [] n = "gc" -> <<Tables.bg["gc"].x[1], Tables.bg["gc"].x[Rows(Tables.bg["gc"])]>>

\* published halo factors of each target: by name, profile and region
Halo(n) == LET h == Tables.halos IN h[CHOOSE i \in 1..Len(h) : h[i].n = n]

\* units and angles -------------------------------------------------------
HbarC2 == RMul(RPow("3e10", 3), RPow("6.58e-22", 2))   \* cm^3/s in one MeV^-2
CosDeg(r) == LET x == RDiv(RMul(r, RPi), 180) IN       \* series; r at most 180
  RSum([k \in 1..30 |-> LET n == k - 1 IN RMul(IF n % 2 = 0 THEN 1 ELSE -1,
        RRound(RDiv(RPow(x, 2 * n), LET RECURSIVE F(_) F(m) == IF m = 0 THEN "1" ELSE RMul(m, F(m - 1)) IN F(2 * n))))])
Cone(r) == RMul(RMul(2, RPi), RSub(1, CosDeg(r)))
=============================================================================
