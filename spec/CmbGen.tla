------------------------------- MODULE CmbGen -------------------------------
EXTENDS Cmb, TLC
CONSTANTS Walk, Depth
VARIABLES st, hist

Models == {[kind |-> "ann", mx |-> m, ch |-> ch, a |-> a, thr |-> <<"0", t>>,
            p |-> [i \in 1..Len(ch) |-> RAdd(i, "1/4")], q |-> [i \in 1..Len(ch) |-> RDiv(i, 2)],
            u |-> [i \in 1..Len(ch) |-> RMul(i, 2)],     v |-> [i \in 1..Len(ch) |-> RDiv(1, 2 * i)]] :
           m \in {"4", "1/120"}, ch \in {<<"e e", "g g">>, <<"pi0 g", "g g">>, <<"pi0 g", "e e">>},
           a \in {<<"1", "3">>, <<"2", "0">>, <<"0", "1/2">>}, t \in {"0", "17/2"}}
XKds == {"1e-4", "1e-10", "1e-12"}
Queries == {[op |-> "feff", particle |-> p, xkd |-> x] : p \in {"g", "p", "both"}, x \in XKds}
           \cup {[op |-> "limit", xkd |-> x, pann |-> pa] : x \in XKds, pa \in {"3.5e-31", "7e-30"}}
Sets == [op : {"set"}, f : {"a"}, i : 1..2, x : {"0", "2", "5"}] \cup [op : {"setmx"}, x : {"4", "3", "1/50", "1/120", "100"}]
Init == st \in Models /\ hist = IF Walk THEN <<[op |-> "new", st |-> st]>> ELSE <<>>
Do(o) == st' = Apply(st, o) /\ hist' = IF Walk THEN Append(hist, o) ELSE hist
Next == IF ~Walk THEN \E o \in Sets : Do(o)
        ELSE \/ Len(hist) < Depth /\ \E o \in {RandomElement(IF RandomElement(1..3) = 1 THEN Sets ELSE Queries)} : Do(o)
             \/ Len(hist) = Depth /\ PrintT("B " \o ToJson(hist)) /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED st

\* laws: an efficiency is not negative, lines alone deposit at most what they carry, and the
\* bound weakens with the allowed energy release
NonNegative == RLeq(0, Both(st, "1e-4"))
LinesAtMostAll == RLeq(LineSum(st, "g", "1e-4"), 1)
ScalesWithPann == RFin(CmbLimit(st, "1e-4", "1e-31")) => REq(RMul(2, CmbLimit(st, "1e-4", "1e-31")), CmbLimit(st, "1e-4", "2e-31"))
=============================================================================
