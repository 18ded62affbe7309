----------------------------- MODULE BoostGen ------------------------------
EXTENDS Boost, Json
CONSTANTS Mode, Depth
VARIABLES st, hist
Ms == {"0", "1/2", "511/1000", "10567/100"}
Bs == {"3/5", "4/5", "5/13", "1/16", "99/101", "1/1000"}
Odd == {"0", "1", "-1/2", "3/2"}
Es(m) == {RAdd(m, x) : x \in {"1/64", "1", "33/2", "300"}}
Cs == {<<"1">>, <<"0", "1">>, <<"2", "-1/100">>, <<"1", "1/3", "1/7">>, <<"0", "0", "5/4">>}
Beta(w) == RandomElement(IF RandomElement(1..4) = 1 THEN Odd ELSE Bs)
Rnd(w, n) == RDiv(RandomElement(0..n), n)
New(w) ==
  LET m == RandomElement(Ms) IN
  CASE w = 1 -> {[op |-> "line", m |-> m, e0 |-> e] : e \in Es(m)}
    [] w = 2 -> {[op |-> "poly", m |-> m, c |-> c] : c \in Cs}
    [] OTHER -> {LET n == RandomElement(3..9)
                     first == RandomElement({RMul(m, "1/2"), RAdd(m, "1/16"), RMul(m, "9/8")})
                     step == [i \in 1..n |-> RMul(RandomElement({"1/4", "1", "7/3"}), RandomElement({"1", "20"}))]
                 IN [op |-> "table", m |-> m, es |-> [i \in 1..n |-> RAdd(RAdd(first, RMax(m, "1/2")), RSub(RSum(SubSeq(step, 1, i)), step[1]))],
                     ys |-> [i \in 1..n |-> RMul(RandomElement({"0", "1", "5/2", "-1/3"}), Rnd(i, 8))]]}
Forms(n) == IF n = 1 THEN {"array", "list", "scalar"} ELSE {"array", "list", "int"}
Round(e) == ToString(RFloor(e))
Point(s, b, w) ==                                 \* around the image of the line
  LET lo == Lo(s.e0, s.m, b) hi == Hi(s.e0, s.m, b)
      u == RandomElement({"-1/8", "1/1000", "1/3", "1/2", "7/9", "999/1000", "9/8", "3"})
  IN RMax(RAdd(lo, RMul(u, RSub(hi, lo))), RMul("1/2", RAdd(s.m, "1/100")))
Use(s, w) ==
  LET b == IF RandomElement(1..4) = 1 THEN RandomElement(Odd) ELSE RandomElement(Bs)
      n == RandomElement(1..4)
      form == RandomElement(Forms(n)) IN
  CASE s.kind = "line" /\ w = 1 ->
         LET p == IF RLt(0, b) /\ RLt(b, 1) THEN b ELSE "3/5"
             es == [i \in 1..n |-> LET e == Point(s, p, i) IN IF form = "int" THEN Round(e) ELSE e]
         IN [op |-> "delta", b |-> b, form |-> form, es |-> es]
    [] s.kind = "line" ->
         LET b1 == RandomElement(Bs) b2 == RandomElement(Bs)
             lo == RMax(Lo(s.e0, s.m, b2), s.m)
             es == [i \in 1..n |-> LET x == RandomElement(1..3)
                                       a == Point(s, b1, i)
                                       z == RMax(a, RMul(s.m, "9/8"))
                                       e == CASE x = 1 -> a [] x = 2 -> Shift(z, s.m, b2, RandomElement({"1", "-1"})) [] OTHER -> Shift(z, s.m, RDiv(b2, 2), RandomElement({"1", "-1"}))
                                   IN IF form = "int" THEN Round(e) ELSE e]
         IN [op |-> "double", b1 |-> b1, b2 |-> b2, form |-> form, es |-> es]
    [] s.kind = "table" -> [op |-> "array", b |-> b, form |-> RandomElement({"array", "list"})]
    [] OTHER ->
         LET method == RandomElement({"quad", "quadrature", "trapz", "simps", "quad", "bogus"})
             es == [i \in 1..n |-> LET e == RAdd(s.m, RandomElement({"-1/3", "1/50", "2", "41", "5/3", "900"}))
                                   IN IF form = "int" THEN Round(RAdd(e, 2)) ELSE RMax(e, "1/8")]
         IN [op |-> "func", b |-> b, method |-> method, form |-> form, es |-> es,
             npts |-> RandomElement({0, 3, 7, 21, 4}), scale |-> RandomElement({"0", "3", "1/7"}),
             vec |-> RandomElement({"0", "1"}), via |-> RandomElement({"make", "direct"})]
Init == hist = <<>> /\ st \in
  (IF Mode = "laws" THEN {[None EXCEPT !.kind = "line", !.m = m, !.e0 = e, !.c = <<b, b2>>] :
       m \in {"0", "511/1000", "10567/100"}, e \in {"110", "500"}, b \in {"3/5", "1/16", "12/13"}, b2 \in {"4/5", "1/8"}}
   ELSE {None})
Next == IF Mode = "laws" THEN FALSE /\ UNCHANGED <<st, hist>>
        ELSE \/ Len(hist) < Depth
                /\ \E o \in {IF st.kind = "none" \/ RandomElement(1..6) = 1 THEN RandomElement(New(RandomElement(1..3)))
                             ELSE Use(st, RandomElement(1..2))} :
                     hist' = Append(hist, o) /\ st' = Apply(st, o)
             \/ Len(hist) = Depth /\ PrintT("B " \o ToJson(hist)) /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED st
---------------------------------------------------------------------------
\* Laws of the boost
B1 == st.c[1]
B2 == st.c[2]
E0 == st.e0
M == st.m
Area(f(_), a, b, n) == LET h == RDiv(RSub(b, a), n) IN    \* Simpson, n even
  RMul(RDiv(h, 3), RSum([i \in 1..(n + 1) |-> RRound(RMul(IF i \in {1, n + 1} THEN 1 ELSE IF i % 2 = 0 THEN 4 ELSE 2, f(RAdd(a, RMul(h, i - 1)))))]))
Photons == LET a == Lo(E0, M, B1) b == Hi(E0, M, B1) IN
  /\ RClose(RMul(Height(E0, M, B1), RSub(b, a)), 1, "1e-30", 0)
  /\ RClose(RDiv(RAdd(a, b), 2), RMul(Gamma(B1), E0), "1e-30", 0)
OrderFree == \A x \in {"1/4", "5/4", "3"} : LET e == RMax(RMul(x, E0), RMul(M, "9/8")) IN
  RClose(LineTwice(E0, M, B1, B2, e), LineTwice(E0, M, B2, B1, e), "1e-25", "1e-30")
Compose == RDiv(RAdd(B1, B2), RAdd(1, RMul(B1, B2)))
Widest == \A x \in {"1/200", "1/20"} :                     \* nothing beyond a boost by the composed velocity
  /\ REq(LineTwice(E0, M, B1, B2, RMul(RAdd(1, x), Hi(E0, M, Compose))), 0)
  /\ ~REq(LineTwice(E0, M, B1, B2, RMul(RSub(1, x), Hi(E0, M, Compose))), 0)
TwiceConserves ==                                           \* number and mean energy, by quadrature on a wide range
  LET a == RMax(M, "1/1000") b == Hi(E0, M, Compose)
      f(z) == LineTwice(E0, M, B1, B2, z)
      n == Area(f, a, b, 400)
  IN RClose(n, 1, "1/50", 0)
RestLimit == \A c \in Cs : RClose(PolyBoost(c, M, "1/100000", RAdd(E0, 5)), PolyAt(c, RAdd(E0, 5)), "1e-7", "1e-7")
Unphysical == \A b \in {"1", "-1/2", "3/2"} : PolyBoost(<<"1">>, M, b, E0) = "0" /\ LineBoost(E0, M, b, E0) = "0"
RulesConverge == \A c \in {<<"1">>, <<"1", "1/3", "1/7">>} : LET e == RAdd(E0, 7) v == PolyBoost(c, M, "3/5", e) IN
  /\ RClose(Rule("simps", c, M, "3/5", e, 41), v, "1e-3", 0) /\ RClose(Rule("trapz", c, M, "3/5", e, 41), v, "1e-2", 0)
TableOfLine ==                                              \* a table whose dN/dE over k is linear loses nothing
  LET es == [i \in 1..7 |-> RAdd(E0, 10 * i)]
      t == [es |-> es, ys |-> [i \in 1..7 |-> RMul(Mom(es[i], M), RAdd(2, es[i]))]]
      x == Shift(es[4], M, "1/16", -1) y == Shift(es[4], M, "1/16", 1)
      g(z) == RAdd(RMul(2, z), RDiv(RMul(z, z), 2))
  IN RLt(x, es[1]) \/ RLt(es[7], y) \/
     RClose(TableBoost(t, M, "1/16", 4), RDiv(RSub(g(y), g(x)), RMul(2, RMul(Gamma("1/16"), "1/16"))), "1e-25", 0)
=============================================================================
