--------------------------- MODULE InstrumentsGen ---------------------------
EXTENDS Instruments
CONSTANTS Mode, Depth
VARIABLES bg, hist

GcSets == [kind : {"gc"}, p : {<<a, i, c, x, ea, ei>> : a \in {"13/1000", "2", "0"}, i \in {"9/5", "0"}, c \in {"2", "1/2"},
                                x \in {"2", "3/4"}, ea \in {"4135/1000000", "1", "0"}, ei \in {"28956/10000", "3/2"}}]
GeccoSets == [kind : {"gecco"}, p : {<<a, i>> : a \in {"1/125", "3"}, i \in {"2", "5/4", "0"}}]
Models == GcSets \cup GeccoSets
Es == {"3/20", "1/5", "1/2", "1", "2", "7/3", "5"}

\* a point of a table: on a row, between rows, or beyond either end
At(t, k, f) == IF k = 0 THEN RMul(t.x[1], RDiv(RAdd(1, f), 3)) ELSE IF k = Rows(t) THEN RMul(t.x[Rows(t)], RAdd(1, f))
               ELSE RAdd(t.x[k], RMul(f, RSub(t.x[k + 1], t.x[k])))
Pick(t) == \* a short random sequence of such points
  [i \in 1..RandomElement(1..4) |-> At(t, RandomElement(0..Rows(t)), RandomElement({"0", "1/3", "7/8"}))]
Rand(S, n) == [i \in 1..n |-> RandomElement(S)]
Form(es) == RandomElement(IF Len(es) = 1 THEN {"scalar", "array"} ELSE {"array"})
ResTable(n) == IF n \in DOMAIN Tables.eres THEN Tables.eres[n] ELSE Tables.eres["e_astrogam"]

Query(w) ==
  CASE w = 1 -> LET n == RandomElement(Telescopes) IN
         {[op |-> "aeff", n |-> n, alias |-> al, es |-> es, form |-> Form(es)] : al \in {RandomElement({"0", "1"})}, es \in {Pick(Tables.aeff[n])}}
    [] w = 2 -> LET n == RandomElement(Resolutions) IN
         {[op |-> "res", n |-> n, es |-> es, form |-> Form(es)] : es \in {Pick(ResTable(n))}}
    [] w = 3 -> {[op |-> "survey", n |-> RandomElement(Surveys)]}
    [] w \in {4, 5} -> {[op |-> "flux", es |-> es, form |-> Form(es)] : es \in {Rand(Es, RandomElement(1..3))}}
    [] w \in {6, 7, 8} -> {[op |-> "slopes", es |-> es, form |-> Form(es)] : es \in {Rand(Es, RandomElement(1..3))}}
    [] w = 9 -> {[op |-> "params"]}
    [] w = 10 -> {[op |-> "range", lo |-> lo, hi |-> RAdd(lo, RandomElement({"1", "5/2"})), c |-> Rand({"0", "1", "-1/2", "3"}, 3),
                   es |-> es, form |-> Form(es)] : lo \in {RandomElement({"1/2", "2"})}, es \in {Rand({"1/2", "1", "2", "5/2", "3", "9/2", "7"}, RandomElement(1..3))}}
    [] w = 11 -> LET n == RandomElement({"gecco", "default", "gc"}) IN
         {[op |-> "shipped", n |-> n, es |-> es, form |-> Form(es)] : es \in {Rand({"1/4", "1", "7", "1234/3", "3500"}, RandomElement(1..3))}}
    [] w = 12 -> {[op |-> "units", x |-> RandomElement({"1", "3e-26", "2.5e-9", "0"}), to |-> RandomElement({"cm^3/s", "cm^3 / s", "MeV^-2"})]}
    [] w = 13 -> {[op |-> "cone", r |-> RandomElement({"0", "1", "5", "45/2", "90", "170", "180", "1/100"})]}
    [] w = 14 -> {[op |-> "outside", how |-> RandomElement({"function", "table"})]}
    [] w = 16 -> {[op |-> "halo", n |-> Tables.halos[RandomElement(1..Len(Tables.halos))].n]}
    [] w = 17 -> {[op |-> "file", power |-> RandomElement({0, 1, 2, 3}), default |-> RandomElement({"0", "1"}), rows |->
                   [i \in 1..RandomElement(2..4) |-> LET lo == RandomElement({"1/2", "1", "5", "20"}) y == RandomElement({"1/8", "3/1024"}) IN
                      <<lo, RAdd(lo, RandomElement({"1/4", "3"})), y, RMul(y, RandomElement({"1", "5/4"})), RMul(y, RandomElement({"1/2", "1"}))>>]]}
    [] w = 15 -> {[op |-> "target", have |-> RandomElement(SUBSET {"J", "D", "dOmega"})]}

Init == bg \in (IF Mode = "laws" THEN Models ELSE {[kind |-> "none", p |-> <<>>]}) /\ hist = <<>>
Next == IF Mode = "laws" THEN UNCHANGED <<bg, hist>>
        ELSE \/ Len(hist) < Depth
                /\ \E w \in {IF hist = <<>> THEN 0 ELSE RandomElement(0..17)} :
                   \E o \in (IF w = 0 THEN {[op |-> "new", bg |-> RandomElement(Models)]} ELSE Query(w)) :
                     /\ hist' = Append(hist, o)
                     /\ bg' = IF w = 0 THEN o.bg ELSE bg
             \/ Len(hist) = Depth /\ PrintT("B " \o ToJson(hist)) /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED bg

\* laws ---------------------------------------------------------------------
H == "1e-8"
Moved(i, d) == [bg EXCEPT !.p[i] = RAdd(@, d)]
SlopesAreSlopes == \A i \in 1..Len(bg.p), e \in Es :
  LET n == RDiv(RSub(Flux(Moved(i, H), e), Flux(Moved(i, RNeg(H)), e)), RMul(2, H))
  IN  RClose(n, Slope(bg, i, e), "1e-8", "1e-13")
Positive == \A e \in Es : RLeq(0, Flux(bg, e))
LinearInAmplitude == \A e \in Es : \* the amplitudes carry the whole flux
  RClose(Flux(bg, e), RSum([k \in 1..(IF bg.kind = "gc" THEN 2 ELSE 1) |-> RMul(bg.p[4 * k - 3], Slope(bg, 4 * k - 3, e))]), "1e-30", "0")
TablesAnswerRows == \A n \in Telescopes : LET t == Tables.aeff[n] IN
  /\ \A k \in 1..Rows(t) : REq(AEff(n, t.x[k]), t.y[k])
  /\ REq(AEff(n, RDiv(t.x[1], 2)), 0) /\ REq(AEff(n, RMul(2, t.x[Rows(t)])), 0)
  /\ \A k \in 1..Rows(t) : RLeq(0, t.y[k])
ErrorBars == \A n \in Surveys : LET s == Survey(n) IN
  \A b \in 1..Len(s.lows) : RLt(0, s.fluxes[b]) /\ RLt(0, s.upper[b]) /\ RLt(0, s.lower[b]) /\ RLt(s.lows[b], s.highs[b])
Sphere == RClose(Cone(180), RMul(4, RPi), "1e-30", "0") /\ RClose(Cone(90), RMul(2, RPi), "1e-30", "0")
=============================================================================
