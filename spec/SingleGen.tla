----------------------------- MODULE SingleGen ------------------------------
EXTENDS Single, Json
CONSTANTS Mode, Depth
VARIABLES st, hist
Pick(X) == RandomElement(X)
Ms == {"1", "70", "1397/10", "274", "800", "2000"}
Gs == {"0", "1", "1/1024", "1e-27", "5/2"}
Fs(w) == IF Pick(1..8) = 1 THEN Pick(Triples) ELSE Pick(States)
\* an energy around the two thresholds, or well above
Ecm(s, w) ==
  LET t == RMax(Threshold(s.fs), RMul(2, s.mx)) x == Pick(1..8) IN
  CASE x = 1 -> RMul(t, "999/1000") [] x = 2 -> RMul(RAdd(Threshold(s.fs), "1/10"), "1/2")
    [] x = 3 -> RMul(s.mx, "1999/1000") [] OTHER -> RMul(t, Pick({"1001/1000", "21/20", "2"}))
\* decaying models are only asked above their threshold
Fine(s) == s.cls = "ann" \/ RLt(RMul(Threshold(s.fs), "10001/10000"), s.mx)
Query(s, w) ==
  LET e == Ecm(s, w) n == Pick(1..3) x == Pick(1..12)
      top == Energy(s, e)
  IN CASE x = 1 \/ ~Fine(s) -> [op |-> "info"]
       [] x \in {2, 3} -> [op |-> "rates", ecm |-> e]
       [] x \in {4, 5} -> [op |-> "lines", kind |-> Pick({"photon", "positron"}), ecm |-> e]
       [] x = 6 /\ HasLine("photon", s.fs) /\ Bf(s, e) = "1" -> [op |-> "conv", ecm |-> e, width |-> "1/500"]
       [] x \in {6, 7} /\ s.cls = "ann" /\ s.fs[1] \in {"a", "photon", "e"} /\ Len(s.fs) = 2 /\ s.fs[1] = s.fs[2] -> [op |-> "feff"]
       [] OTHER -> [op |-> "spectrum", kind |-> Pick({"photon", "positron"}), ecm |-> e, via |-> Pick({"total", "parts", "function"}),
                    form |-> Pick(IF n = 1 THEN {"scalar", "numpy", "array"} ELSE {"array", "list"}),
                    es |-> [i \in 1..n |-> RMul(top, Pick({"1/300", "1/20", "1/5", "3/7", "1/2", "11/10"}))]]
New(w) == [op |-> "new", cls |-> Pick({"ann", "dec"}), mx |-> Pick(Ms), fs |-> Fs(w), g |-> Pick(Gs)]
Step(s, w) ==
  CASE w = 1 -> New(w)
    [] w = 2 -> [op |-> "mx", mx |-> Pick(Ms)]
    [] w \in {3, 4} -> [op |-> "fs", fs |-> Fs(w)]
    [] w = 5 -> [op |-> "g", g |-> Pick(Gs)]
    [] OTHER -> Query(s, w)
Init == hist = <<>> /\ st \in
  (IF Mode = "laws" THEN [cls : {"ann", "dec"}, mx : Ms, fs : States, g : {"0", "1"}] ELSE {Fresh})
Next == IF Mode = "laws" THEN FALSE /\ UNCHANGED <<st, hist>>
        ELSE \/ Len(hist) < Depth
                /\ \E w \in {Pick(1..20)} :
                   \E o \in {IF hist = <<>> THEN New(w) ELSE Step(st, w)} :
                     hist' = Append(hist, o) /\ st' = ApplyS(st, o)
             \/ Len(hist) = Depth /\ PrintT("B " \o ToJson(hist)) /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED st
---------------------------------------------------------------------------
E0 == RAdd(Threshold(st.fs), RMul(2, st.mx))
\* the two energies share the total; each is at least its mass; order does not matter; equal particles share alike
Shares == LET s == [st EXCEPT !.cls = "ann"] IN
  /\ RClose(RAdd(Two(s.fs, E0, 1), Two(s.fs, E0, 2)), E0, "1e-25", 0)
  /\ \A i \in 1..2 : RLeq(Mass[s.fs[i]], Two(s.fs, E0, i))
  /\ REq(Two(s.fs, E0, 1), Two(<<s.fs[2], s.fs[1]>>, E0, 2))
  /\ (s.fs[1] = s.fs[2] => RClose(Two(s.fs, E0, 1), RDiv(E0, 2), "1e-25", 0))
Closed == st.cls = "ann" => Rate(st, RMul(st.mx, "19/10")) = "0" /\ Rate(st, RMul(Threshold(st.fs), "9/10")) = "0"
Lines == \A k \in {"photon", "positron"} : HasLine(k, st.fs) => (\E i \in 1..2 : Wanted(k, st.fs[i])) /\ RLeq(LineAt(k, [st EXCEPT !.cls = "ann"], E0), E0)
Strength == Rate(st, E0) = st.g /\ (Bf(st, E0) = "1" <=> st.g # "0")
=============================================================================
