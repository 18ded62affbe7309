----------------------------- MODULE TheoryGen -----------------------------
(* All models of up to MaxCh channels over small rates and thresholds: the  *)
(* design-level theorems, and every (state, operation) for the conformance  *)
(* driver.  With Walk = TRUE (simulation) a history is kept and printed.    *)
EXTENDS Theory, TLC, Json, TLCExt
CONSTANTS MaxCh, Walk, Depth, Focus
VARIABLES st, hist

Names == <<"e e", "g g", "pi0 g">>
RateVals == {"0", "1/2", "3"}
RareVals == {"2e-8", "1e-11"}      \* rare final states
ThrVals == {"0", "4"}
Ecms == {"2", "5"}
ProbeEs == {<<"1/2">>, <<"1", "3/2", "7">>}

Model(k, chs, as, ts) ==
  [kind |-> k, mx |-> "8", ch |-> chs, a |-> as, thr |-> ts,
   p |-> [i \in 1..Len(chs) |-> RAdd(i, "1/4")], q |-> [i \in 1..Len(chs) |-> RDiv(i, 2)],
   u |-> [i \in 1..Len(chs) |-> RMul(i, 2)],     v |-> [i \in 1..Len(chs) |-> RDiv(1, 2 * i)]]

Models == {Model(k, SubSeq(perm, 1, n), as, ts) :
             k \in {"ann", "dec"}, perm \in {Names, <<Names[3], Names[1], Names[2]>>}, n \in {MaxCh},
             as \in [1..MaxCh -> RateVals], ts \in [1..MaxCh -> ThrVals]}

Queries ==
  [op : {"rates", "bfs"}, ecm : Ecms]
  \cup [op : {"lines"}, particle : {"g", "p"}, ecm : Ecms]
  \cup [op : {"spectra", "funcs", "total"}, particle : {"g", "p"}, ecm : Ecms, es : ProbeEs, form : {"array", "scalar"}]

OkQuery(o) == ("form" \in DOMAIN o /\ o.form = "scalar") => Len(o.es) = 1
Sets(s) == [op : {"set"}, f : {"a"}, i : 1..N(s), x : RateVals \cup RareVals] \cup [op : {"set"}, f : {"thr"}, i : 1..N(s), x : ThrVals]

Init == st \in Models /\ hist = IF Walk THEN <<[op |-> "new", st |-> st]>> ELSE <<>>
Do(o) == /\ st' = Apply(st, o)
         /\ IF Walk THEN hist' = Append(hist, o)
            ELSE UNCHANGED hist /\ PrintT("T " \o ToJson(<<[op |-> "new", st |-> st], o>>))
Next == IF ~Walk THEN \/ \E o \in Queries : OkQuery(o) /\ Do(o)
                      \/ \E o \in Sets(st) : Do(o)
        ELSE \/ /\ Len(hist) < Depth   \* one random operation per step: a change or a query of each kind equally often
                /\ \E w \in {RandomElement({"set"} \cup Focus)} :
                   \E o \in {RandomElement(IF w = "set" THEN Sets(st) ELSE {o \in Queries : o.op = w /\ OkQuery(o)})} : Do(o)
             \/ /\ Len(hist) = Depth
                /\ PrintT("B " \o ToJson(hist))
                /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED st

\* design-level theorems, on every reachable model and energy
BfSum == \A e \in Ecms : LET s == RSum([i \in 1..N(st) |-> Bf(st, i, e)])
                         IN  IF REq(Total(st, e), 0) THEN s = "0" ELSE s = "1"
BfRange == \A e \in Ecms, i \in 1..N(st) : RLeq(0, Bf(st, i, e)) /\ RLeq(Bf(st, i, e), 1)
ClosedIsSilent == \A e \in Ecms, i \in 1..N(st) : ~Open(st, i, e) => Weighted(st, "g", i, 1, e) = "0" /\ Bf(st, i, e) = "0"
MeanBetween == \A e \in Ecms : \* the total is a convex mean of the open channels
  LET open == {i \in 1..N(st) : Open(st, i, e)}
  IN  IF open = {} THEN TotalDnde(st, "g", 1, e) = "0"
      ELSE /\ \E i \in open : RLeq(Dnde(st, "g", i, 1, e), TotalDnde(st, "g", 1, e))
           /\ \E i \in open : RLeq(TotalDnde(st, "g", 1, e), Dnde(st, "g", i, 1, e))
=============================================================================
