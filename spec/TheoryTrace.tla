---------------------------- MODULE TheoryTrace ----------------------------
(* Validates what hazma.theory answered against Theory, event by event. *)
EXTENDS Theory, TraceLib
VARIABLES l, st

Tol == "1e-11"
Near(x, y) == RClose(x, y, Tol, "1e-30")
Zero(x) == REq(x, 0)
\* DOMAIN of a JSON object, as a set of channel names
Keys(r) == DOMAIN r

IsSeqOf(x, n) == DOMAIN x = 1..n

RatesChecks(e) ==
  LET r == e.res IN
  IF ~(Keys(r) = Chan(st) \cup {"total"}) THEN [ChannelsAndTotal |-> FALSE]
  ELSE [ChannelsAndTotal |-> TRUE,
        RatesAreTheModels |-> \A i \in 1..N(st) : Near(r[st.ch[i]], Rate(st, i, e.ecm)),
        TotalIsSum |-> Near(r["total"], Total(st, e.ecm))]

BfsChecks(e) ==
  LET r == e.res IN
  IF ~(Keys(r) = Chan(st)) THEN [BranchingChannels |-> FALSE]
  ELSE [BranchingChannels |-> TRUE,
        BranchingIsShare |-> \A i \in 1..N(st) : Near(r[st.ch[i]], Bf(st, i, e.ecm)),
        ClosedHasNone |-> \A i \in 1..N(st) : ~Open(st, i, e.ecm) => Zero(r[st.ch[i]])]

LinesChecks(e) ==
  LET r == e.res IN
  IF ~(Keys(r) = LineChan(st, e.particle)) THEN [LineChannels |-> FALSE]
  ELSE [LineChannels |-> TRUE,
        LineEnergies |-> \A c \in Keys(r) : Near(r[c].energy, LineEnergy(st, e.particle, c, e.ecm)),
        LineWeights |-> \A c \in Keys(r) : Near(r[c].bf, Bf(st, Idx(st, c), e.ecm))]

SpectraChecks(e) ==
  LET r == e.res  n == Len(e.es) IN
  IF ~(Keys(r) = Chan(st) \cup {"total"}) THEN [SpectraChannels |-> FALSE]
  ELSE IF ~(\A c \in Chan(st) : Len(r[c]) = n) THEN [SpectraShape |-> FALSE]
  ELSE [SpectraChannels |-> TRUE, SpectraShape |-> Len(r["total"]) = n \/ N(st) = 0,
        SpectraWeighted |-> \A i \in 1..N(st), k \in 1..n : Near(r[st.ch[i]][k], Weighted(st, e.particle, i, e.es[k], e.ecm)),
        ClosedIsZero |-> \A i \in 1..N(st), k \in 1..n : ~Open(st, i, e.ecm) => Zero(r[st.ch[i]][k]),
        TotalSpectrumIsSum |-> \A k \in 1..Len(r["total"]) : Near(r["total"][k], TotalDnde(st, e.particle, e.es[k], e.ecm))]

FuncsChecks(e) ==
  LET r == e.res  n == Len(e.es) IN
  IF ~(Keys(r) = Chan(st)) THEN [FuncChannels |-> FALSE]
  ELSE [FuncChannels |-> TRUE,
        FuncIsChannelSpectrum |-> \A i \in 1..N(st) : Len(r[st.ch[i]]) = n /\
              \A k \in 1..n : Near(r[st.ch[i]][k], Dnde(st, e.particle, i, e.es[k], e.ecm))]

TotalChecks(e) ==
  LET r == e.res  n == Len(e.es) IN
  [TotalSpectrum |-> (Len(r) = n \/ N(st) = 0) /\ \A k \in 1..Len(r) : Near(r[k], TotalDnde(st, e.particle, e.es[k], e.ecm))]

Checks(e) ==
  IF e.op \in {"new", "set", "setmx"} THEN <<>>
  ELSE IF e.out # "ok" THEN [Answers |-> FALSE]
  ELSE [Answers |-> TRUE, ArgumentsKept |-> e.kept = "1", ParametersKept |-> e.same = "1"] @@
       CASE e.op = "rates" -> RatesChecks(e)
         [] e.op = "bfs" -> BfsChecks(e)
         [] e.op = "lines" -> LinesChecks(e)
         [] e.op = "spectra" -> SpectraChecks(e)
         [] e.op = "funcs" -> FuncsChecks(e)
         [] e.op = "total" -> TotalChecks(e)

TInit == l = 1 /\ st = [kind |-> "none", ch |-> <<>>] /\ CountInit
TNext == /\ l <= Len(Trace)
         /\ LET c == Checks(Trace[l]) IN Report(l, c) /\ Count(c)
         /\ st' = Apply(st, Trace[l])
         /\ l' = l + 1
TraceAccepted == Accepted(Len(Trace))
=============================================================================
