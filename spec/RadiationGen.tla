--------------------------- MODULE RadiationGen ----------------------------
EXTENDS Radiation, Json
CONSTANTS Mode, Depth
VARIABLES st, hist
Pairs == {<<"0", "0">>, <<"10566/100", "10566/100">>, <<"1/2", "139">>, <<"135", "1/2">>, <<"139", "139">>}
More == {<<"0", "0", "0">>, <<"0", "0", "0", "0">>, <<"135", "139", "139">>, <<"0", "1/2", "100">>}
Pick(X) == RandomElement(X)
Process(w) ==
  LET ms == Pick(IF Pick({0, 1, 2}) = 0 THEN More ELSE Pairs)
      t == RSum(ms)
      rad == CASE Len(ms) > 2 -> <<Pick({"1", "3"}), Pick({"0", "1/1000"}), "0", "0", "0">>
               [] RLt(ms[1], 1) -> <<Pick({"1", "2"}), Pick({"0", "1/100"}), Pick({"0", "1/50"}), Pick({"0", "1/5000"}), "0">>
               [] OTHER -> <<Pick({"0", "2"}), Pick({"0", "1/100"}), Pick({"0", "1/50"}), Pick({"0", "1/5000"}), Pick({"1", "1000"})>>
  IN [op |-> "process", masses |-> ms, cme |-> IF REq(t, 0) THEN Pick({"1", "700"}) ELSE RMul(t, Pick({"11/10", "5/4", "2", "9"})),
      rad |-> rad, non |-> Pick({<<"1", "0">>, <<"2", "1/1000">>, <<"0", "1/300">>})]
Energies(p, n, w) == [i \in 1..n |-> RMul(EMax(p), Pick({"1/10000", "1/20", "1/3", "1/2", "3/4", "99/100", "5/4", "0", "-1/9"}))]
Make(w) ==
  LET n == Pick(2..6)
      step == [i \in 1..n |-> RMul(Pick({"1", "7/3", "1/5"}), IF Pick({0, 1}) = 0 THEN 1 ELSE 20)]
      even == Pick({"0", "1"})
  IN [op |-> "make", cmes |-> [i \in 1..n |-> RAdd(100, IF even = "1" THEN RMul(i, step[1]) ELSE RSum(SubSeq(step, 1, i)))],
      probs |-> [i \in 1..n |-> Pick({"0", "1/4", "3/7", "1"})], c |-> [i \in 1..5 |-> IF i = 5 THEN Pick({"0", "1/100000"}) ELSE Pick({"0", "1", "-2/3", "5"})],
      scale |-> Pick({"1", "1", "3/2"}), method |-> Pick({"trapz", "simpson"}), vec |-> Pick({"0", "1"}), via |-> Pick({"make", "direct"})]
Bad(w) == Pick({"below", "threshold", "one", "none", "method", "quad3", "npts1", "npts0", "nptshalf", "nonzero", "nonnegative"})
Ap(w) ==
  LET m == Pick({"511/1000", "10566/100", "13957/100"})
      s == Sq(RMul(m, Pick({"2", "3", "40", "2000"})))
      kind == Pick({"fermion", "scalar"})
      of == Pick({"x", "e"})
      end == RSub(1, RDiv(RMul(RExp(1), Sq(m)), s))
      xs == [i \in 1..Pick(1..4) |-> Pick({"1/1000", "1/10", "1/2", "9/10", "1", "6/5", RMul(end, "999999/1000000"), RMul(RAdd(end, "1/100000000"), "1000001/1000000")})]
  IN [op |-> "ap", kind |-> kind, of |-> of, s |-> s, m |-> m, q |-> Pick({"1", "1", "-1", "2/3"}), form |-> Pick({"array", "list", "scalar"}),
      xs |-> [i \in 1..Len(xs) |-> IF of = "x" THEN xs[i] ELSE RMul(xs[i], RDiv(RSqrt(s), 2))]]
Op(s, w) ==
  CASE w = 1 \/ (w \in {2, 3, 9} /\ s.p = NoProc) -> Process(s)
    [] w \in {2, 9} -> LET n == Pick(1..3) IN
         [op |-> "fsr", es |-> Energies(s.p, n, w), form |-> Pick(IF n = 1 THEN {"scalar", "array"} ELSE {"array", "list"}),
          method |-> Pick(IF Len(s.p.masses) = 2 THEN {"auto", "quad", "rambo"} ELSE {"auto", "rambo"}), seed |-> Pick(1..99), npts |-> Pick({400, 3000}), scale |-> Pick({"1", "1e-12", "1e9"})]
    [] w = 3 -> [op |-> "pulls", e |-> RMul(EMax(s.p), Pick({"1/4", "3/5"})), seed |-> Pick(1..99), npts |-> 200, times |-> 60]
    [] w = 4 -> [op |-> "bad", what |-> Bad(s)]
    [] w = 5 \/ (w = 6 /\ s.a = NoAve) -> Make(s)
    [] w = 6 -> LET n == Pick(1..4) IN [op |-> "average", form |-> Pick(IF n = 1 THEN {"scalar", "array"} ELSE {"array", "list"}), es |-> [i \in 1..n |-> Pick({"1/3", "20", "7"})]]
    [] OTHER -> Ap(s)
Init == hist = <<>> /\ st \in
  (IF Mode = "laws" THEN {[Init0 EXCEPT !.p = [cme |-> RMul(f, RAdd(RSum(ms), 1)), masses |-> ms, rad |-> <<"1", "1/1000", "1/50", "1/5000", "7">>, non |-> <<"2", "1/1000">>],
                                       !.a = [NoAve EXCEPT !.c = <<"1", "2", "-1/3", "1/7", "0">>]] : f \in {"6/5", "3"}, ms \in Pairs \ {<<"0", "0">>}} ELSE {Init0})
Next == IF Mode = "laws" THEN FALSE /\ UNCHANGED <<st, hist>>
        ELSE \/ Len(hist) < Depth
                /\ \E o \in {Op(st, RandomElement(1..9))} : hist' = Append(hist, o) /\ st' = Apply(st, o)
             \/ Len(hist) = Depth /\ PrintT("B " \o ToJson(hist)) /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED st
---------------------------------------------------------------------------
\* Laws
P == st.p
Swap(p) == [p EXCEPT !.masses = <<p.masses[2], p.masses[1]>>]
Flat(p) == [p EXCEPT !.rad = <<p.rad[1], p.rad[2], "0", p.rad[4], "0">>]
Symmetric == \A x \in {"1/9", "1/2", "7/8"} : LET e == RMul(x, EMax(P)) IN RClose(Fsr(Flat(P), e), Fsr(Swap(Flat(P)), e), "1e-25", 0)
\* averages over the angle, by quadrature
Angle(p, e) ==
  LET sp == Reduced(p, e) q == RSqrt(sp) k == RDiv(RMul(e, p.cme), q)
      e1 == RDiv(RAdd(sp, RSub(Sq(p.masses[1]), Sq(p.masses[2]))), RMul(2, q)) e2 == RSub(q, e1) m == RSqrt(RSub(Sq(e1), Sq(p.masses[1])))
      at(c) == LET a == RMul(k, RSub(e1, RMul(m, c))) b == RMul(k, RAdd(e2, RMul(m, c))) IN
               RSum(<<p.rad[1], RMul(p.rad[2], RAdd(a, b)), RMul(p.rad[3], a), RMul(p.rad[4], RMul(a, b)), RDiv(p.rad[5], a)>>)
      n == 200
      h == RDiv(2, n)
  IN RDiv(RMul(RDiv(h, 3), RSum([i \in 1..(n + 1) |-> RMul(IF i \in {1, n + 1} THEN 1 ELSE IF i % 2 = 0 THEN 4 ELSE 2, RRound(at(RSub(RMul(h, i - 1), 1))))])), 2)
Averages == \A x \in {"1/9", "1/2"} : LET e == RMul(x, EMax(P)) IN
  RLt(P.masses[1], 1) \/ RClose(Rad(P, e), Angle(P, e), "1e-6", 0)
Edges == Fsr(P, EMax(P)) = "0" /\ Fsr(P, 0) = "0" /\ Fsr(P, RMul(2, EMax(P))) = "0" /\ RLt(0, Fsr(P, RMul(EMax(P), "999/1000")))
Scaling == \A x \in {"1/9", "1/2"} : LET e == RMul(x, EMax(P)) IN         \* units: dN/dE of pure phase space scales as E per s
  LET flat == [P EXCEPT !.rad = <<"1", "0", "0", "0", "0">>, !.non = <<"1", "0">>]
      big == [flat EXCEPT !.cme = RMul(2, P.cme), !.masses = [i \in 1..2 |-> RMul(2, P.masses[i])]]
  IN RClose(Fsr(big, RMul(2, e)), RMul(2, Fsr(flat, e)), "1e-25", 0)
SoftPhoton == \A k \in {"fermion", "scalar"} :                            \* both splittings agree for soft photons, vanish at the end
  /\ RClose(ApX(k, "1e-6", 10000, 1, 1), ApX("scalar", "1e-6", 10000, 1, 1), "1e-5", 0)
  /\ ApX(k, RSub(1, RDiv("2.71828182", 10000)), 10000, 1, 1) = "0" /\ RLt(0, ApX(k, RSub(1, RDiv("2.7183", 10000)), 10000, 1, 1))
  /\ RClose(ApE(k, 10, 10000, 1, 2), RMul(4, ApE(k, 10, 10000, 1, -1)), "1e-30", 0)
Rules == LET xs == <<"1", "2", "7/2", "4", "6">> f(x) == RSum(<<3, x, RMul("1/2", Sq(x))>>)
             F(x) == RSum(<<RMul(3, x), RDiv(Sq(x), 2), RDiv(RMul(x, Sq(x)), 6)>>) IN
  /\ \A n \in {3, 4, 5} : RClose(Simp(SubSeq(xs, 1, n), [i \in 1..n |-> f(xs[i])]), RSub(F(xs[n]), F(1)), "1e-25", 0)
  /\ RClose(Trap(xs, [i \in 1..5 |-> RAdd(2, xs[i])]), RAdd(10, RDiv(35, 2)), "1e-25", 0)
=============================================================================
