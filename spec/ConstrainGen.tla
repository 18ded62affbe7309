---------------------------- MODULE ConstrainGen ----------------------------
EXTENDS Constrain
CONSTANTS Mode, Depth
VARIABLES st, hist

Model(m, ch, a, t) ==
  [kind |-> "ann", mx |-> m, ch |-> ch, a |-> a, thr |-> <<"0", t>>,
   p |-> [i \in 1..2 |-> RAdd(i, "1/4")], q |-> [i \in 1..2 |-> RDiv(i, 2)],
   u |-> [i \in 1..2 |-> RMul(i, 2)],     v |-> [i \in 1..2 |-> RDiv(1, 2 * i)]]
RandModel(w) == Model(RandomElement({"4", "30", "1/50", "200"}), RandomElement({<<"e e", "g g">>, <<"pi0 g", "g g">>, <<"pi0 g", "e e">>}),
                      RandomElement({<<"1", "3">>, <<"2", "0">>, <<"1/2", "1/2">>}), RandomElement({"0", "17/2"}))
Cmbs == [name : {"cmb"}, xkd : {"1e-4", "1e-10", "1e-12"}, pann : {"3.5e-31", "7e-30"}]
Scopes == [name : Telescopes, sigma : {"2", "1", "3/2"}, method : {"chi2", "1bin"}]
\* INTEGRAL's fine bins make it slow: rarely
RandC(w) == LET k == RandomElement(1..16) IN
  RandomElement(IF k <= 8 THEN Cmbs ELSE IF k = 16 THEN {c \in Scopes : c.name = "integral"} ELSE {c \in Scopes : c.name # "integral"})
RandCs(w) == [i \in 1..(RandomElement(1..4) - 1) |-> RandC(i)]
Ops(w, s) ==
  CASE w \in {2, 3} -> [op |-> "add", i |-> RandomElement(1..Len(s.comps)), c |-> RandC(s)]
    [] w = 4 -> [op |-> "reset", i |-> RandomElement(1..Len(s.comps))]
    [] w \in {5, 6} -> [op |-> "compose", i |-> RandomElement(1..Len(s.comps))]
    [] w \in {7, 8} -> [op |-> "single", c |-> RandC(s), form |-> RandomElement({"list", "tuple", "array"})]
    [] w = 9 -> [op |-> "set", i |-> RandomElement(1..Len(s.models)), x |-> RandomElement({"0", "2", "5"})]
    [] w = 10 -> [op |-> "relic", log |-> RandomElement({"0", "1"}), method |-> RandomElement({"brentq", "bisect", "ridder"}),
                  lo |-> RandomElement({"1/100", "1/10"}), hi |-> RandomElement({"100", "1/5"}), vx |-> RandomElement({"1/1000", "1/10"}),
                  models |-> [i \in 1..RandomElement(1..2) |-> [mx |-> RandomElement({"1", "100"}), p |-> RandomElement({"0", "1"}),
                                                               q |-> RandomElement({0, 1, -2}), g |-> "3"]]]
Op(w, s) == IF s.comps = <<>> /\ w \in {2, 3, 4, 5, 6} THEN [op |-> "composite", default |-> "1", with |-> <<>>]
            ELSE IF w = 1 THEN LET d == RandomElement({"0", "1"}) IN [op |-> "composite", default |-> d, with |-> IF d = "1" THEN <<>> ELSE RandCs(s)]
            ELSE Ops(w, s)

LawModels == <<Model("4", <<"e e", "g g">>, <<"1", "3">>, "0"), Model("1/50", <<"pi0 g", "e e">>, <<"1", "0">>, "0")>>
Init == /\ st = (IF Mode = "laws" THEN [models |-> LawModels, comps |-> <<>>] ELSE State0) /\ hist = <<>>
LawCs == {[name |-> "cmb", xkd |-> "1e-4", pann |-> "3.5e-31"], [name |-> "cmb", xkd |-> "1e-10", pann |-> "7e-30"],
          [name |-> "egret", sigma |-> "2", method |-> "chi2"]}
LawOps(s) == [op : {"composite"}, with : {<<>>}] \cup [op : {"add"}, i : 1..Len(s.comps), c : LawCs] \cup [op : {"reset"}, i : 1..Len(s.comps)]
Next == IF Mode = "laws"
        THEN \E o \in LawOps(st) : (o.op = "composite" => Len(st.comps) < 2) /\ (o.op = "add" => Len(st.comps[o.i]) < 3) /\ st' = Apply2(st, o) /\ UNCHANGED hist
        ELSE \/ Len(hist) < Depth
                /\ \E w \in {RandomElement(1..10)} :
                   \E o \in {IF hist = <<>> THEN [op |-> "new", models |-> [i \in 1..RandomElement(1..3) |-> RandModel(i)]] ELSE Op(w, st)} :
                     hist' = Append(hist, o) /\ st' = Apply2(st, o)
             \/ Len(hist) = Depth /\ PrintT("B " \o ToJson(hist)) /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED st
\* laws
Answered == \A i \in 1..Len(st.comps) : \A n \in NamesOf(st.comps[i]) : Member(st.comps[i], n).name = n
Looser == \A i \in 1..Len(st.models) : RLt(CmbLimit(st.models[i], "1e-4", "3.5e-31"), CmbLimit(st.models[i], "1e-4", "7e-30"))
Separate == [][\A i \in 1..Len(st.comps) : Len(st'.comps) >= Len(st.comps) /\ (Cardinality({j \in 1..Len(st.comps) : st'.comps[j] # st.comps[j]}) <= 1)]_st
=============================================================================
