----------------------------- MODULE LimitsGen -----------------------------
(* Models, targets, measurements and observations; the laws limits obey at *)
(* design level; and walks (queries between parameter changes) to perform. *)
EXTENDS Limits, TLC, Json
CONSTANTS Walk, Depth, Ops
VARIABLES st, hist

Models == {[kind |-> k, mx |-> "4", ch |-> ch, a |-> a, thr |-> t,
            p |-> [i \in 1..Len(ch) |-> RAdd(i, "1/4")], q |-> [i \in 1..Len(ch) |-> RDiv(i, 2)],
            u |-> [i \in 1..Len(ch) |-> RMul(i, 2)],     v |-> [i \in 1..Len(ch) |-> RDiv(1, 2 * i)]] :
           k \in {"ann", "dec"}, ch \in {<<"e e", "g g">>, <<"pi0 g", "g g">>, <<"mu mu", "e e">>},
           a \in {<<"1", "3">>, <<"2", "0">>, <<"0", "1/2">>}, t \in {<<"0", "0">>, <<"0", "17/2">>, <<"100", "0">>}}
Targets == [J : {"1000", "5"}, D : {"300", "7"}, dOmega : {"1/10", "2"}, vx : {"1/1000", "1/2"}]
Meas == {[lows |-> <<"3">>, highs |-> <<"5">>, data |-> <<"7">>, upper |-> <<"9">>, lower |-> <<"4">>, power |-> 2],
         [lows |-> <<"1", "2", "5">>, highs |-> <<"2", "5", "8">>, data |-> <<"2", "30", "12">>,
          upper |-> <<"3", "33", "25">>, lower |-> <<"1", "29", "11">>, power |-> 1],
         [lows |-> <<"2", "6">>, highs |-> <<"3", "7">>, data |-> <<"1/2", "80">>, upper |-> <<"1", "90">>, lower |-> <<"1/4", "60">>, power |-> 0]}
Res == {"1/20", "1/12"}
Forms == {"constant", "array", "scalaronly"}
Grids == {<<"1", "3/2", "3", "5">>, <<"2", "4", "9/2", "8">>}
\* signals with one, two and no bumps; rising, falling and U-shaped backgrounds; positive on [1,10]
Signals == {<<"1", "1/4", "1/50">>,
            <<"5", "-39/20", "9/50", "1/500">>,
            <<"10127/20", "-945/2", "621/4", "-21", "1">>,
            <<"20736", "-6912", "864", "-48", "1">>}
Areas == {<<"3">>, <<"1/2", "1/4">>}
Backs == {<<"1/4">>, <<"1", "2">>, <<"121", "-22", "1">>, <<"28", "-20", "4">>}
PGrids == {<<"1", "2", "4", "9/2", "8", "10">>, <<"1", "5", "9">>, <<"2", "3", "5", "15/2", "9", "10">>}
Queries ==
  {[op |-> "conv", particle |-> p, r |-> r, form |-> f, lo |-> "1", hi |-> "10", ecm |-> ecm] :
      p \in {"g", "p"}, r \in Res, f \in Forms, ecm \in {"8", "10"}}
  \cup {[op |-> "binned", t |-> t, m |-> m, r |-> r, form |-> f, ns |-> ns, method |-> me] :
      t \in Targets, m \in Meas, r \in Res, f \in {"array"}, ns \in {"1", "2", "5/2"}, me \in {"1bin", "chi2"}}
  \cup {[op |-> "slack", t |-> t, m |-> m, r |-> r, form |-> f, ns |-> ns] :
      t \in Targets, m \in Meas, r \in Res, f \in {"constant"}, ns \in {"1", "2"}}
  \cup {[op |-> "slackgrid", t |-> t, m |-> m, r |-> "1/12", form |-> "array", ns |-> "2", v1 |-> v1, v2 |-> v2] :
      t \in Targets, m \in Meas, v1 \in {<<"3">>, <<"2", "4", "6">>}, v2 \in {<<"0", "1">>, <<"1/8", "2", "4">>}}
  \cup {[op |-> "unbinned", t |-> t, r |-> r, form |-> "array", grid |-> g, area |-> a, bg |-> b, tobs |-> "100", ns |-> ns] :
      t \in Targets, r \in Res, g \in Grids, a \in {"3", "1/2"}, b \in {"1/4", "9"}, ns \in {"5", "2"}}
  \cup {[op |-> "fisher", t |-> t, r |-> r, form |-> "array", area |-> a, bg |-> b, tobs |-> tt, ns |-> ns] :
      t \in Targets, r \in Res, a \in {"3", "1/2"}, b \in {"1/4", "9"}, tt \in {"100", "7"}, ns \in {"5", "2"}}
  \cup [op : {"convvar"}, particle : {"g", "p"}, r0 : {"1/20", "1/50"}, r1 : {"1/20", "1/10"}, form : {"array"}, lo : {"1"}, hi : {"10"}, ecm : {"8", "10"}]
  \cup [op : {"window"}, t : Targets, sig : Signals, area : Areas, bg : Backs, grid : PGrids, ngrid : {0, 0, 5}, tobs : {"100"}, ns : {"5", "2"}]
  \cup [op : {"forecast"}, t : Targets, sig : Signals, area : Areas, bg : Backs, d : {<<>>, <<<<"1">>>>, <<<<"0", "1">>>>, <<<<"1">>, <<"0", "1">>>>, <<<<"2", "0", "1">>, <<"1", "-1/20">>>>},
          tobs : {"100", "7"}, ns : {"5", "2"}]
Sets == [op : {"set"}, f : {"a"}, i : 1..2, x : {"0", "2", "5"}] \cup [op : {"setmx"}, x : {"4", "3", "5"}]

ByOp == [op \in Ops |-> {o \in Queries : o.op = op}]
OfOp(op) == ByOp[op]
Init == st \in Models /\ hist = IF Walk THEN <<[op |-> "new", st |-> st]>> ELSE <<>>
Do(o) == st' = Apply(st, o) /\ hist' = IF Walk THEN Append(hist, o) ELSE hist
Next == IF ~Walk THEN \E o \in Sets : Do(o)
        ELSE \/ Len(hist) < Depth /\ \E o \in {RandomElement(IF RandomElement(1..4) = 1 THEN Sets ELSE OfOp(RandomElement(Ops)))} : Do(o)
             \/ Len(hist) = Depth /\ PrintT("B " \o ToJson(hist)) /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED st

-----------------------------------------------------------------------------
\* design-level laws
T0 == [J |-> "1000", D |-> "300", dOmega |-> "1/10", vx |-> "1/2"]
T2 == [T0 EXCEPT !.J = "2000", !.D = "600"]
M1 == [lows |-> <<"1", "2">>, highs |-> <<"2", "5">>, data |-> <<"2", "30">>, upper |-> <<"3", "33">>, lower |-> <<"1", "29">>, power |-> 1]
M2 == [M1 EXCEPT !.lows = <<"1", "2", "5">>, !.highs = <<"2", "5", "8">>, !.data = <<"2", "30", "12">>,
                 !.upper = <<"3", "33", "25">>, !.lower = <<"1", "29", "11">>]
NonNegative == RLeq(0, OneBin(st, T0, M2, "1/20", 2))
MoreBinsNeverWeaken == RLeq(OneBin(st, T0, M2, "1/20", 2), OneBin(st, T0, M1, "1/20", 2))
WeakerWithSigma == RLeq(OneBin(st, T0, M1, "1/20", 1), OneBin(st, T0, M1, "1/20", 2))
HalvedByTwiceTheHalo == LET l1 == OneBin(st, T0, M1, "1/20", 2)  l2 == OneBin(st, T2, M1, "1/20", 2)
                        IN  RClose(l1, RMul(2, l2), "1e-20", 0) \/ l1 = "inf"
BinsAdd == RClose(ConvIn(st, "g", 1, 5, 8, "1/20"), RAdd(ConvIn(st, "g", 1, 2, 8, "1/20"), ConvIn(st, "g", 2, 5, 8, "1/20")), "1e-20", "1e-25")
LinesCountOnce == RLeq(LinesIn(st, "g", "1/100", "100", 8, "1/20"), 2)
SharpDetector == RClose(Continuum(st, "g", 3, 8, "1/1000"), TotalDnde(st, "g", 3, 8), "1e-5", 0)
=============================================================================
