------------------------------- MODULE PbhGen -------------------------------
EXTENDS Pbh
CONSTANTS Mode, Depth
VARIABLES st, hist
Fr == {"0", "1", "1/1024"}
New(w) == LET k == RandomElement(Kinds) IN {[op |-> "new", kind |-> k, c |-> c, f |-> f] : c \in 1..Cols(k), f \in Fr}
Point(k, w) == LET x == RandomElement(1..12) IN
  CASE x = 1 -> RDiv(Lowest(k), 2) [] x = 2 -> RMul(Highest(k), "3/2")
    [] OTHER -> EnergyAt(k, RandomElement(1..Segs(k)), RandomElement({"0", "1/4", "2/3"}))
Ops(w, s) ==
  CASE w = 1 -> {[op |-> "mass", c |-> RandomElement(1..Cols(s.kind))]}
    [] w = 2 -> {[op |-> "fraction", f |-> RandomElement(Fr)]}
    [] w = 3 -> {[op |-> "badmass", x |-> RandomElement({"1", "17/2", "1e40", "-1"})]}
    [] w = 4 -> {[op |-> "assign", a |-> RandomElement({"spectrum_kind", "bh_secondary"})]}
    [] w = 5 -> {[op |-> "badkind"]}
    [] w = 6 -> {[op |-> "widths"]}
    [] OTHER -> LET n == RandomElement(1..4) IN
         {[op |-> "spectrum", total |-> RandomElement({"0", "1"}), form |-> f, es |-> [i \in 1..n |-> Point(s.kind, i)]] :
            f \in {RandomElement(IF n = 1 THEN {"array", "scalar"} ELSE {"array"})}}
Init == st \in (IF Mode = "laws" THEN UNION {{[kind |-> k, c |-> c, f |-> f] : c \in 1..Cols(k), f \in Fr} : k \in Kinds}
                ELSE {[kind |-> "none", c |-> 0, f |-> "0"]}) /\ hist = <<>>
Next == IF Mode = "laws" THEN \E f \in Fr : st' = Apply(st, [op |-> "fraction", f |-> f]) /\ UNCHANGED hist
        ELSE \/ Len(hist) < Depth
                /\ \E w \in {IF hist = <<>> THEN 0 ELSE RandomElement(0..12)} :
                   \E o \in {RandomElement(IF w = 0 THEN New(hist) ELSE Ops(w, st))} :
                     hist' = Append(hist, o) /\ st' = Apply(st, o)
             \/ Len(hist) = Depth /\ PrintT("B " \o ToJson(hist)) /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED st
\* laws: a spectrum is never negative, meets the rows and stays between neighbours, and the fraction does not reshape it
Rows == \A s \in 1..Segs(st.kind) : LET g == Data[st.kind].segs[s] IN
  RClose(Spectrum(st, EnergyAt(st.kind, s, 0)), IF REq(st.f, 0) THEN 0 ELSE RDiv(g.ylo[st.c], 1000), "1e-25", "0")
Between == \A s \in 1..Segs(st.kind) : LET g == Data[st.kind].segs[s] v == Spectrum([st EXCEPT !.f = "1"], EnergyAt(st.kind, s, "1/3")) IN
  RLeq(0, v) /\ RLeq(RDiv(RMin(g.ylo[st.c], g.yhi[st.c]), 1000), v) /\ RLeq(v, RDiv(RMax(g.ylo[st.c], g.yhi[st.c]), 1000))
Nothing == Spectrum(st, RDiv(Lowest(st.kind), 3)) = "0" /\ Spectrum(st, RMul(Highest(st.kind), 3)) = "0"
=============================================================================
