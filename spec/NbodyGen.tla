------------------------------ MODULE NbodyGen ------------------------------
EXTENDS Nbody, Json
CONSTANTS Mode, Depth
VARIABLES st, hist
Pick(X) == RandomElement(X)
Light == {"e", "ve", "vm", "vt", "mu", "pi", "pi0", "k"}
Particle(w) == Pick(IF Pick({0, 1, 2}) = 0 THEN Particles ELSE Light)
Final(w) ==
  LET n == Pick({1, 2, 2, 3, 3, 3})
      fs == TLCEval([i \in 1..n |-> Particle(i + w)])
      twin == Pick({1, 2, 3}) = 1
      ps == [i \in 1..n |-> IF i = 2 /\ twin THEN fs[1] ELSE fs[i]]
      sig == IF n # 3 THEN "none" ELSE Pick({"none", "st", "default", "momenta"})
      m == RMax(Total0(ps), IF n = 1 THEN "1" ELSE "30")
  IN [op |-> "final", fs |-> ps, sig |-> sig, cme |-> RMul(m, Pick({"11/10", "19/13", "4"})),
      me |-> IF sig = "none" THEN <<"1", "0", "0">> ELSE <<Pick({"1", "3"}), RDiv(Pick({"0", "1", "4"}), Sq(m)), RDiv(Pick({"0", "1", "2"}), Sq(m))>>]
Calls(s, nbins) == [i \in 1..Len(s.fs) |-> Parents(s, i, nbins)]
Energies(s, n, w) == [i \in 1..n |-> RMul(s.cme, Pick({"1/1000", "1/40", "1/10", "1/4", "2/5", "3/7", "9/10", "6/5"}))]
Ask(s, w) ==
  LET n == Pick(1..3)
      nbins == Pick({3, 5, 8})
      rambo == Len(s.fs) = 3 /\ s.sig \in {"none", "momenta"} /\ Pick(1..6) = 1
      product == Pick({"photon", "photon", "positron", "neutrino", "ve", "vm", "vt"})
      bins == IF rambo THEN 8 ELSE nbins
  IN [op |-> "ask", product |-> product, nbins |-> bins, integrator |-> IF rambo THEN "rambo" ELSE Pick({"default", "quad", "trapz", "simps"}),
      fsr |-> Pick({"0", "1", "1"}), average |-> Pick({"0", "1", "1"}), form |-> Pick(IF n = 1 THEN {"scalar", "array"} ELSE {"array", "list"}),
      alone |-> IF Len(s.fs) = 1 THEN Pick({"0", "1"}) ELSE "0",
      es |-> Energies(s, n, w), calls |-> Calls(s, bins)]
Bad(s) == [op |-> "bad", what |-> Pick({"below", "unknown", "flavor", "integrator"}), product |-> Pick({"photon", "positron", "neutrino"})]
Count4(s) == [op |-> "count", pions |-> Pick({2, 3}), factor |-> Pick({"5/4", "3"}), seed |-> Pick(1..50)]
Many(w) ==
  LET n == Pick({4, 4, 5})
      nu == TLCEval([i \in 1..n |-> Pick({"ve", "vm", "vt"})])
      first == Pick(1..n)
      what == Pick({"share", "radiate"})
  IN [op |-> what, fs |-> IF what = "share" THEN nu ELSE [nu EXCEPT ![first] = "e"], first |-> first, a |-> Pick({0, 0, 3, 6}),
      cme |-> Pick({"100", "1500"}), average |-> Pick({"0", "1"}), seed |-> w, frac |-> Pick({"1/100", "1/20", "3/20"})]
Init == hist = <<>> /\ st \in
  (IF Mode = "laws" THEN {[fs |-> fs, cme |-> RMul(Total0(fs), x), me |-> me, sig |-> "st"] :
        fs \in {<<"mu", "mu", "pi0">>, <<"e", "pi", "k">>, <<"ve", "mu", "e">>}, x \in {"11/10", "3"}, me \in {<<"1", "0", "0">>, <<"1", "1/100000", "0">>}}
   ELSE {Fresh})
Next == IF Mode = "laws" THEN FALSE /\ UNCHANGED <<st, hist>>
        ELSE \/ Len(hist) < Depth
                /\ \E w \in {Pick(1..24)} :
                   \E o \in {IF hist = <<>> \/ w < 7 THEN Final(w) ELSE IF w = 7 THEN Bad(st) ELSE IF w = 8 THEN Count4(st) ELSE IF w = 9 THEN Many(w) ELSE Ask(st, w)} :
                     hist' = Append(hist, o) /\ st' = ApplyN(st, o)
             \/ Len(hist) = Depth /\ PrintT("B " \o ToJson(hist)) /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED st
---------------------------------------------------------------------------
T == Tables(st, 5)
\* energies of the particles add up to the total on average (the densities are those of phase space)
Bins(ps, xs) == RSum([b \in 1..Len(ps) |-> RMul(ps[b], RSub(xs[b + 1], xs[b]))])
Normalised == LET t == Tables(st, 5) IN \A i \in 1..3 : RClose(Bins(t.p[i], t.x[i]), 1, "1e-20", 0)
EnergyShared == LET t == Tables(st, 20) IN
  RClose(RSum([i \in 1..3 |-> RSum([b \in 1..20 |-> RMul(t.c[i][b], RMul(t.p[i][b], RSub(t.x[i][b + 1], t.x[i][b])))])]), st.cme, "1/100", 0)
Relabelled ==                                      \* the order of the final state does not matter
  LET s2 == [st EXCEPT !.fs = <<st.fs[2], st.fs[1], st.fs[3]>>, !.me = <<"1", "0", "0">>]
      s1 == [st EXCEPT !.me = <<"1", "0", "0">>]
      e == RDiv(st.cme, 50)
  IN RClose(Radiation(s1, Tables(s1, 4), e, Mean2), Radiation(s2, Tables(s2, 4), e, Mean2), "1e-12", 0)
TwoBodyEnergies == \A q \in {"1000", "2500"} : LET s == [Fresh EXCEPT !.fs = <<"pi", "k">>, !.cme = q] IN
  RClose(RAdd(Parents(s, 1, 1)[1], Parents(s, 2, 1)[1]), q, "1e-30", 0)
  /\ REq(RSub(Sq(Parents(s, 1, 1)[1]), Sq(Mass["pi"])), RSub(Sq(Parents(s, 2, 1)[1]), Sq(Mass["k"])))
=============================================================================
