------------------------------- MODULE Nbody -------------------------------
(***************************************************************************)
(* The spectrum of photons, positrons or neutrinos from a final state: the *)
(* spectra of what its particles decay into, each averaged over its energy *)
(* in the final state, the product itself where it is in the final state,  *)
(* and radiation of the charged ones over the invariant masses of pairs.   *)
(* The state is the final state; the decay spectra of single particles are *)
(* parameters (they are decided elsewhere).                                *)
(***************************************************************************)
EXTENDS Radiation

Mass == [e |-> "0.5109989461", mu |-> "105.6583745", ve |-> "0", vm |-> "0", vt |-> "0", pi |-> "139.57039", pi0 |-> "134.9768",
         k |-> "493.677", kl |-> "497.611", ks |-> "497.611", eta |-> "547.862", etap |-> "957.78", rho |-> "775.26",
         rho0 |-> "775.26", omega |-> "782.66", phi |-> "1019.461"]
Particles == DOMAIN Mass
Radiators == [e |-> "fermion", mu |-> "fermion", pi |-> "scalar", k |-> "scalar"]
Masses(fs) == [i \in 1..Len(fs) |-> Mass[fs[i]]]
Total0(fs) == RSum(Masses(fs))
Phase(s) == [cls |-> "three", cme |-> s.cme, masses |-> Masses(s.fs), me |-> s.me]
Lo(s, i) == PS!ELo(Phase(s), i)
Hi(s, i) == PS!EHi(Phase(s), i)
\* Energies at which the decay spectrum of particle i is needed
Parents(s, i, nbins) ==
  CASE Len(s.fs) = 1 -> <<s.cme>>
    [] Len(s.fs) = 2 -> LET m == Mass[s.fs[i]] o == Mass[s.fs[3 - i]] IN
                        <<RDiv(RAdd(Sq(s.cme), RSub(Sq(m), Sq(o))), RMul(2, s.cme))>>
    [] OTHER -> [b \in 1..nbins |-> PS!Centre(Lo(s, i), Hi(s, i), nbins, b)]
EDist(s, i, nbins) == PS!DensityBins(LAMBDA e : PS!EnergyDensity(Phase(s), i, e), Lo(s, i), Hi(s, i), nbins)
\* of the pair without particle i
MLow(s, i) == RSum([j \in 1..3 |-> IF j = i THEN "0" ELSE Mass[s.fs[j]]])
MHigh(s, i) == RSub(s.cme, Mass[s.fs[i]])
MDist(s, i, nbins) == PS!DensityBins(LAMBDA w : PS!MassDensity(Phase(s), i, w), MLow(s, i), MHigh(s, i), nbins)
Trapz(c, ys) == RSum([b \in 1..(Len(c) - 1) |-> RMul(RDiv(RAdd(ys[b], ys[b + 1]), 2), RSub(c[b + 1], c[b]))])

\* row f of the product counts the particles of its own flavour; the single-flavour products name theirs
Rows(product) == IF product = "neutrino" THEN <<"ve", "vm", "vt">> ELSE <<product>>
Is(p, row) == p = row \/ (p = "e" /\ row = "positron")

\* parts, given the tables computed once per query: centres c[i], heights p[i], and comp[i][b][f][j]
Decays(s, t, comp, f, j) ==
  RSum([i \in 1..Len(s.fs) |->
     IF Len(s.fs) < 3 THEN comp[i][1][f][j]
     ELSE Trapz(t.c[i], [b \in 1..Len(t.c[i]) |-> RMul(t.p[i][b], comp[i][b][f][j])])])
Direct(s, t, row, e) ==
  IF Len(s.fs) < 3 THEN "0"
  ELSE RSum([i \in 1..Len(s.fs) |-> IF Is(s.fs[i], row) THEN PS!DistAt(t.x[i], t.p[i], e) ELSE "0"])
Ap(p, e, s2) == ApE(Radiators[p], e, s2, Mass[p], 1)
Charged(s) == {i \in 1..Len(s.fs) : s.fs[i] \in DOMAIN Radiators}
\* radiation of particle i as seen in the pair without particle o
FromPair(s, t, i, o, e) == Trapz(t.w[o], [b \in 1..Len(t.w[o]) |-> RMul(t.q[o][b], Ap(s.fs[i], e, Sq(t.w[o][b])))])
Radiation(s, t, e, pick(_, _)) ==
  CASE Len(s.fs) = 1 -> "0"
    [] Len(s.fs) = 2 -> RSum([i \in 1..2 |-> IF i \in Charged(s) THEN Ap(s.fs[i], e, Sq(s.cme)) ELSE "0"])
    [] OTHER -> RSum([i \in 1..3 |-> IF i \in Charged(s)
                        THEN LET a == FromPair(s, t, i, (i % 3) + 1, e) b == FromPair(s, t, i, ((i + 1) % 3) + 1, e) IN pick(a, b)
                        ELSE "0"])
Mean2(a, b) == RDiv(RAdd(a, b), 2)
Tables(s, nbins) ==
  IF Len(s.fs) < 3 THEN [c |-> <<>>, x |-> <<>>, p |-> <<>>, w |-> <<>>, q |-> <<>>]
  ELSE [c |-> TLCEval([i \in 1..3 |-> Parents(s, i, nbins)]),
        x |-> TLCEval([i \in 1..3 |-> [b \in 1..(nbins + 1) |-> PS!Edge(Lo(s, i), Hi(s, i), nbins, b - 1)]]),
        p |-> TLCEval([i \in 1..3 |-> EDist(s, i, nbins)]),
        w |-> TLCEval([i \in 1..3 |-> [b \in 1..nbins |-> PS!Centre(MLow(s, i), MHigh(s, i), nbins, b)]]),
        q |-> TLCEval([i \in 1..3 |-> IF \E k \in Charged(s) : k # i THEN MDist(s, i, nbins) ELSE <<>>])]

---------------------------------------------------------------------------
\* n >= 4 massless particles, squared matrix element (2 E1 / cme)^a: the fraction x = 2 E1 / cme is a beta variable,
\* the others share the rest alike, and the squared mass of 1 with another is x w s with density (n-2)(1-w)^(n-3) of w
FirstMean(n, a) == RDiv(a + 2, a + n)
OtherMean(n, a) == RDiv(RSub(2, FirstMean(n, a)), n - 1)
Fraction(n, a, x) == RMul(RPow(x, a + 1), RPow(RSub(1, x), n - 3))
\* midpoint rule, 40 x 40
Mid(i) == RDiv(2 * i - 1, 80)
Radiated(n, a, p, e, cme) ==
  LET s == Sq(cme)
      inner(x) == RRound(RSum([j \in 1..40 |-> RMul(RMul(n - 2, RPow(RSub(1, Mid(j)), n - 3)), Ap(p, e, RMul(RMul(x, Mid(j)), s)))]))
  IN RDiv(RSum([i \in 1..40 |-> RMul(Fraction(n, a, Mid(i)), inner(Mid(i)))]),
          RMul(40, RSum([i \in 1..40 |-> Fraction(n, a, Mid(i))])))
Fresh == [fs |-> <<>>, cme |-> "0", me |-> <<"1", "0", "0">>, sig |-> "none"]
ApplyN(s, o) == IF o.op = "final" THEN [fs |-> o.fs, cme |-> o.cme, me |-> o.me, sig |-> o.sig] ELSE s
=============================================================================
