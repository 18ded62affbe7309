---------------------------- MODULE MediatorGen ----------------------------
EXTENDS Mediator, Json
CONSTANTS Mode, Depth
VARIABLES st, hist
Pick(X) == RandomElement(X)
Classes == {"scalar", "higgs", "heavy", "vector", "mixing", "quarks"}
Value(n, w) ==
  CASE n = "mx" -> Pick({"1/3", "62", "100", "150", "251", "600"})
    [] n \in {"ms", "mv"} -> Pick({"3/4", "55", "90", "201", "275", "310", "650", "1100"})
    [] n \in {"gsxx", "gvxx"} -> Pick({"1", "7/10", "-1/5", "3/2"})
    [] n = "lam" -> Pick({"1e5", "1e6", "246227.95"})
    [] n = "mQ" -> Pick({"1e6", "173000"})
    [] n = "QQ" -> Pick({"2/3", "-1/3", "1", "0"})
    [] n \in {"stheta", "eps"} -> Pick({"1/10", "1/1000", "-1/50", "0"})
    [] OTHER -> Pick({"0", "1/10", "-3/10", "2", "1/2"})
New(w) == LET c == Pick(Classes) IN [op |-> "new", cls |-> c, p |-> [n \in ToSet(Params[c]) |-> Value(n, w)]]
Energy(s, ch, w) == RMul(IF Pick({1, 2}) = 1 THEN RMul(2, s.p.mx) ELSE Threshold(s, ch), Pick({"99/100", "101/100", "11/10", "7/5", "11/5", "17/3"}))
Clear(s, ch, e) == ~RClose(e, Threshold(s, ch), "5e-3", 0) /\ ~RClose(e, RMul(2, s.p.mx), "5e-3", 0) /\ ~RClose(e, Med(s), "1e-4", 0)
Aim(s, ch, w) == LET t == [i \in 1..12 |-> Energy(s, ch, w)]  good == {i \in 1..12 : RLt(0, t[i]) /\ Clear(s, ch, t[i])} IN
                 IF good = {} THEN RMul(RAdd(s.p.mx, RAdd(Med(s), 400)), "33/10") ELSE t[CHOOSE i \in good : \A j \in good : i <= j]
\* far enough above for a spectrum to show something
High(s, ch, w) == IF Pick(1..6) = 1 THEN Aim(s, ch, w) ELSE RMul(RMax(RMul(2, s.p.mx), RMax(RMul(2, Med(s)), RAdd(Threshold(s, ch), 1))), Pick({"21/20", "5/3", "4"}))
Names(s) == IF Scalar(s) THEN {"mu mu", "e e", "g g", "pi0 pi0", "pi pi", "s s"} ELSE {"mu mu", "e e", "pi pi", "pi0 g", "pi0 v", "v v"}
Es(q, w) == [i \in 1..Pick({1, 3}) |-> RMul(q, Pick({"1/500", "1/30", "1/7", "1/3", "9/20", "49/100", "3/5"}))]
Form(es) == IF Len(es) = 1 THEN Pick({"scalar", "array"}) ELSE "array"
Parent(ch) == CASE ch = "mu mu" -> "muon" [] ch = "pi pi" -> "charged_pion" [] OTHER -> "neutral_pion"
NodesT == 160
Query(s, w) ==
  LET x == Pick(1..22)  ch == Pick(Names(s)) IN
  CASE x \in {1, 2} -> [op |-> "info"]
    [] x \in {3, 4, 5} -> [op |-> "widths"]
    [] x \in {6, 7, 8, 9} -> LET es == [i \in 1..Pick({1, 3}) |-> Aim(s, ch, w)] IN
         [op |-> "sigma", name |-> ch, es |-> es, form |-> Form(es), via |-> Pick({"table", "method"})]
    [] x = 10 -> [op |-> "self", es |-> [i \in 1..2 |-> RMul(s.p.mx, Pick({"21/10", "5/2", "7/2"}))]]
    [] x = 11 -> IF Scalar(s) THEN [op |-> "back", es |-> [i \in 1..2 |-> Aim(s, "s s", w)]] ELSE [op |-> "widths"]
    [] x \in {12, 13} -> LET c == Pick({"e e", "mu mu", "pi pi"}) q == High(s, c, w) es == Es(q, w) IN [op |-> "fsr", name |-> c, q |-> q, es |-> es, form |-> Form(es)]
    [] x \in {14, 15, 16} ->
         LET c == Pick(IF Scalar(s) THEN {"mu mu", "e e", "pi0 pi0", "pi pi"} ELSE {"mu mu", "e e", "pi0 g", "pi pi"})  q == High(s, c, w)  es == Es(q, w) IN
         [op |-> "photons", name |-> c, q |-> q, es |-> es, form |-> Form(es), type |-> Pick({"default", "all", "fsr", "decay", "line"}), parent |-> Parent(c), energy |-> First(s, c, q)]
    [] x \in {17, 18} ->
         LET c == Pick(IF Scalar(s) THEN {"s s"} ELSE {"v v", "pi0 v"})  q == High(s, c, w)  kind == IF c = "pi0 v" THEN "photon" ELSE Pick({"photon", "positron"}) IN
         [op |-> "cascade", name |-> c, q |-> q, es |-> Es(q, w), kind |-> kind, energy |-> First(s, c, q),
          mode |-> IF c = "pi0 v" THEN "default" ELSE IF kind = "photon" /\ Scalar(s) THEN "default" ELSE Pick({"default", "pi pi", "mu mu"})]
    [] x = 19 -> LET c == Pick({"mu mu", "pi pi"}) q == High(s, c, w) IN
         [op |-> "positrons", name |-> c, q |-> q, es |-> Es(q, w), parent |-> Parent(c), energy |-> RDiv(q, 2)]
    [] x \in {20, 21} -> [op |-> "lines", kind |-> Pick({"photon", "positron"}), q |-> High(s, IF Scalar(s) THEN "g g" ELSE "pi0 g", w)]
    [] OTHER -> IF RLt(Med(s), RMul("9/5", s.p.mx))
                THEN LET y == Pick({"1/2", "1", "3/2"}) top == RDiv(40, y) IN
                     [op |-> "thermal", x |-> y, top |-> top, zs |-> [j \in 1..(NodesT + 1) |-> RAdd(2, RMul(top, Cube(RDiv(j - 1, NodesT))))]]
                ELSE [op |-> "widths"]
Step(s, w) ==
  CASE w = 1 -> New(w)
    [] w \in 2..8 -> LET n == Pick(ToSet(Params[s.cls])) IN [op |-> "set", name |-> n, value |-> Value(n, w)]
    [] w = 9 /\ Fixed[s.cls] # {} -> [op |-> "set", name |-> Pick(Fixed[s.cls]), value |-> "1/7"]
    [] OTHER -> Query(s, w)
\* masses far from every threshold but on both sides of them
LawStates ==
  {[cls |-> "scalar", p |-> [mx |-> x, ms |-> m, gsxx |-> "1", gsff |-> f, gsGG |-> "1/3", gsFF |-> "2", lam |-> "1e5"]] :
      x \in {"60", "200"}, m \in {"1/2", "150", "400"}, f \in {"0", "-3/2"}}
  \cup {[cls |-> "vector", p |-> [mx |-> x, mv |-> m, gvxx |-> "1", gvuu |-> u, gvdd |-> "1/3", gvss |-> "2", gvee |-> "1/5", gvmumu |-> "-1"]] :
      x \in {"60", "200"}, m \in {"1/2", "150", "400"}, u \in {"0", "-3/2"}}
Init == hist = <<>> /\ st \in (IF Mode = "laws" THEN LawStates ELSE {Fresh})
Next == IF Mode = "laws" THEN FALSE /\ UNCHANGED <<st, hist>>
        ELSE \/ Len(hist) < Depth
                /\ \E w \in {Pick(1..24)} :
                   \E o \in {IF hist = <<>> THEN New(w) ELSE Step(st, w)} :
                     hist' = Append(hist, o) /\ st' = ApplyM(st, o)
             \/ Len(hist) = Depth /\ PrintT("B " \o ToJson(hist)) /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED st
---------------------------------------------------------------------------
\* Laws
Energies == {"130", "283", "411", "900", "4000"}
Positive == \A i \in 1..Len(Decays(st)) : LET w == Width(st, Decays(st)[i], Med(st)) IN RLeq(0, w) /\ (RLeq(Med(st), Threshold(st, Decays(st)[i])) => REq(w, 0))
Rates == \A ch \in Names(st) : \A e \in Energies : RLeq(0, Sigma(st, ch, e)) /\ (~Above(st, ch, e) => REq(Sigma(st, ch, e), 0))
\* where nothing absorbs, annihilation through the mediator keeps the ratios of its widths; couplings enter squared
Ratios == \A e \in Energies : \A a, b \in ToSet(Decays(st)) \ {"x x"} : (Above(st, a, e) /\ Above(st, b, e)) =>
            RClose(RMul(Sigma(st, a, e), Width(st, b, e)), RMul(Sigma(st, b, e), Width(st, a, e)), "1e-25", "0")
\* the amplitudes for two mediators, integrated over angles
Exchange(s, e, z) ==
  LET m == Sq(s.p.mx)  M == Sq(s.p.ms)  S == Sq(e)  h == RDiv(RMul(z, RMul(Root(Pair(e, s.p.mx)), Root(Pair(e, s.p.ms)))), 2)
      t == RSub(h, RSub(RDiv(S, 2), M))  u == RSub(RNeg(h), RSub(RDiv(S, 2), M))     \* t - mx^2, u - mx^2
      a == RMul(RMul(2, s.p.mx), RAdd(RDiv(1, t), RDiv(1, u)))  b == RSub(RDiv(1, t), RDiv(1, u))
      p1k == RDiv(RSub(M, t), 2)  p2k == RDiv(RSub(M, u), 2)  pp == RSub(RDiv(S, 2), m)
  IN RMul(4, RSum(<<RMul(Sq(a), RSub(pp, m)), Prod(<<-2, a, b, s.p.mx, RSub(p2k, p1k)>>),
                    RMul(Sq(b), RSum(<<Prod(<<2, p1k, p2k>>), RNeg(RMul(M, pp)), RNeg(RMul(m, M))>>))>>))
Angles == Scalar(st) => \A e \in {"900", "4000"} :
  LET n == 160  f(j) == LET y == RDiv(j, n) IN \* denser towards the forward direction
           RMul(RMul(2, RSub(1, y)), Exchange(st, e, RSub(1, Sq(RSub(1, y)))))
      integral == Simpson(n, f)                     \* half of it
      want == RDiv(Prod(<<Sq(Sq(st.p.gsxx)), 2, integral, Root(Pair(e, st.p.ms))>>), Prod(<<256, RPi, Sq(e), Root(Pair(e, st.p.mx))>>))
  IN RClose(want, TwoScalars(st, e), "1e-3", 0)
\* as the mediator's mass vanishes: Dirac's annihilation of a pair into photons
Massless == ~Scalar(st) => \A e \in Energies : RLt(RMul(2, st.p.mx), e) =>
  LET s2 == [st EXCEPT !.p["mv"] = "1e-5"]  b2 == RDiv(Pair(e, st.p.mx), Sq(e))  b == RSqrt(b2) IN
  RClose(TwoVectors(s2, e),
         RDiv(Prod(<<RSub(1, b2), RSub(RMul(RSub(3, Sq(b2)), RLn(RDiv(RAdd(1, b), RSub(1, b)))), Prod(<<2, b, RSub(2, b2)>>))>>),
              Prod(<<64, RPi, b2, Sq(st.p.mx)>>)), "1e-6", 0)
\* low-energy photons follow the classical current whatever the mediator; none carry more than the pair can lose
SoftLimit == \A ch \in {"e e", "mu mu", "pi pi"} : LET q == "900"  m == Mass(st, Parts(ch)[1])  e == "1e-6" IN
  /\ RClose(RMul(RDiv(RMul(2, e), q), Fsr(st, ch, q, e)), Soft(m, q), "1e-6", 0)
  /\ \A k \in 1..20 : LET x == RDiv(k, 18) f == Fsr(st, ch, q, RMul(x, RDiv(q, 2))) IN RLeq(0, f) /\ (RLt(RSub(1, RMul(4, Sq(RDiv(m, q)))), x) => REq(f, 0))
SelfPositive == \A e \in Energies : RLeq(0, SelfSigma(st, e)) /\ (RLeq(e, RMul(2, st.p.mx)) => REq(SelfSigma(st, e), 0))
\* energies are shared
Shared == \A ch \in Names(st) : \A e \in Energies : REq(RAdd(First(st, ch, e), Second(st, ch, e)), e) /\
   (Parts(ch)[1] = Parts(ch)[2] => REq(First(st, ch, e), RDiv(e, 2)))
\* the named models are points of the general ones
Named == LET h == [cls |-> "higgs", p |-> [mx |-> "60", ms |-> "300", gsxx |-> "1", stheta |-> "1/4"]]
             g == [cls |-> "scalar", p |-> [mx |-> "60", ms |-> "300", gsxx |-> "1", gsff |-> "1/4", gsGG |-> "3/4", gsFF |-> "-5/24", lam |-> Vh]]
         IN \A i \in 1..6 : REq(Width(h, Decays(h)[i], "300"), Width(g, Decays(g)[i], "300"))
=============================================================================
