--------------------------- MODULE RhNeutrinoGen ---------------------------
EXTENDS RhNeutrino, Json
CONSTANTS Mode, Depth
VARIABLES st, hist
Pick(X) == RandomElement(X)
Ms == {"1/4", "5/4", "60", "500/3", "214", "300", "450", "650", "2500/3", "1150", "1700"}
Heavy == {"2000", "4000"}
Thetas == {"1/1000", "1e-6", "-1/100", "1/5"}
Bad == {"", "electron", "m", "E", "ve"}
Deep(s) == RLeq(1776, s.mx)
\* a three-body channel the mass opens
Wide(s) == {c \in {Channels(s.n)[i] : i \in 1..Len(Channels(s.n))} : Open(s, c)}
Some(s, k) == [i \in 1..k |-> NameOf(Pick({Channels(s.n)[j] : j \in 1..Len(Channels(s.n))}))]
Opened(s, k) == NameOf(Pick(Wide(s)))
Hi(s, ns) == [i \in 1..Len(ns) |-> LET c == Channel(s.n, ns[i]) IN IF HasFactor(c) /\ Open(s, c) THEN Top(s, c) ELSE "0"]
Es(s, n, w) == [i \in 1..n |-> RMul(s.mx, Pick({"1/300", "1/20", "1/7", "1/3", "3/7", "1/2", "5/9", "2"}))]
Widths(s, k) == LET ns == Some(s, k) a == <<Opened(s, 1)>> \o Tail(ns) IN [op |-> "widths", names |-> a, lo |-> Bottom, hi |-> Hi(s, a), n |-> Nodes]
Query(s, w) ==
  LET x == Pick(1..14) IN
  CASE x = 1 -> [op |-> "info"]
    [] x \in {2, 3, 4, 5} -> Widths(s, Pick(2..4))
    [] x = 6 -> LET ns == Some(s, Pick(1..3)) IN
                [op |-> "some", names |-> ns, lo |-> Bottom, hi |-> Hi(s, ns), n |-> Nodes, form |-> IF Len(ns) = 1 THEN Pick({"str", "list"}) ELSE Pick({"list", "tuple"})]
    [] x = 7 -> [op |-> "unknown", name |-> Pick({"e", "nu a", "pi e", "total", "vm vm vm"} \ Names(s.n))]
    [] x \in {8, 9} -> [op |-> "lines", kind |-> Pick({"photon", "positron", "neutrino"})]
    [] Deep(s) -> Widths(s, 3)
    [] OTHER ->
         LET name == IF Pick(1..8) = 1 THEN Some(s, 1)[1] ELSE Opened(s, 1)  c == Channel(s.n, name)  k == Pick(1..3) IN
         [op |-> "spectrum", kind |-> Pick({"photon", "photon", "positron", "neutrino"}), name |-> name, open |-> IF Open(s, c) THEN "1" ELSE "0", order |-> Order(s, c),
          line |-> IF name = V[s.n] \o " a" THEN "1" ELSE "0",
          coeffs |-> Element(s, c), factor |-> IF HasFactor(c) THEN "1" ELSE "0", via |-> Pick({"function", "function", "parts"}), bins |-> Pick({0, 6}),
          method |-> Pick({"quad", "trapz", "simps"}), es |-> Es(s, k, w)]
New(w) == [op |-> "new", mx |-> Pick(Ms), theta |-> Pick(Thetas), fl |-> Pick({"e", "mu", "tau"})]
Step(s, w) ==
  CASE w = 1 -> IF Pick({1, 2}) = 1 THEN New(w) ELSE [New(w) EXCEPT !.fl = Pick(Bad)]
    [] w \in {2, 3} -> [op |-> "mx", mx |-> IF Pick(1..5) = 1 THEN Pick(Heavy) ELSE Pick(Ms)]
    [] w = 4 -> [op |-> "theta", theta |-> Pick(Thetas)]
    [] w \in {5, 6} -> [op |-> "flavor", fl |-> IF Pick(1..5) = 1 THEN Pick(Bad) ELSE Pick({"e", "mu", "tau"})]
    [] OTHER -> Query(s, w)
Init == hist = <<>> /\ st \in
  (IF Mode = "laws" THEN [mx : {"60", "300", "1700", "4000"}, theta : {"1/1000", "-1/5"}, n : 1..3] ELSE {Fresh})
Next == IF Mode = "laws" THEN FALSE /\ UNCHANGED <<st, hist>>
        ELSE \/ Len(hist) < Depth
                /\ \E w \in {Pick(1..18)} :
                   \E o \in {IF hist = <<>> THEN New(w) ELSE Step(st, w)} :
                     hist' = Append(hist, o) /\ st' = ApplyR(st, o)
             \/ Len(hist) = Depth /\ PrintT("B " \o ToJson(hist)) /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED st
---------------------------------------------------------------------------
\* Laws
Cs == Channels(st.n)
Distinct == Cardinality(Names(st.n)) = Len(Cs)
Unit == [j \in 1..(Nodes + 1) |-> "1"]
W(i) == Width(st, Cs[i], Unit)
Positive == \A i \in 1..Len(Cs) : IF Open(st, Cs[i]) THEN RLt(0, W(i)) ELSE REq(W(i), 0)
\* integrating the squared matrix element over the Dalitz plot gives the width, exactly (three neutrinos: up to 3!)
Dalitz(s, c) ==
  LET p == Order(s, c)  m1 == Mass[p[1]]  m2 == IF c.kind = "lpp" THEN Mass["pi"] ELSE Mass[p[2]]  m3 == Mass[p[3]]  M2 == Sq(s.mx)
      k == Element(s, c)  lo == RAdd(m2, m3)  hi == RSub(s.mx, m1)
      at(j) ==
        LET w == RDiv(j, Nodes)
            q == RAdd(lo, RMul(RSub(hi, lo), RMul(Cube(w), RSub(10, RMul(w, RSub(15, RMul(6, w)))))))
            jac == RMul(RSub(hi, lo), RMul(30, RMul(Sq(w), Sq(RSub(1, w)))))
            z == Sq(q)
            e3 == RDiv(RAdd(z, RSub(Sq(m3), Sq(m2))), RMul(2, q))  e1 == RDiv(RSub(RSub(M2, z), Sq(m1)), RMul(2, q))
            p3 == Root(RSub(Sq(e3), Sq(m3)))  p1 == Root(RSub(Sq(e1), Sq(m1)))
            mid == RAdd(RAdd(Sq(m1), Sq(m3)), RMul(2, RMul(e1, e3)))  half == RMul(2, RMul(p1, p3))
            flat == RSum(<<k[1], RMul(k[2], z), RMul(k[3], mid), RMul(k[4], Sq(z)), RMul(k[5], RMul(z, mid)), RMul(k[6], RAdd(Sq(mid), RDiv(Sq(half), 3)))>>)
        IN IF REq(q, 0) THEN "0" ELSE RMul(RMul(RMul(2, q), jac), RMul(RMul(2, half), flat))
  IN RDiv(Simpson(Nodes, at), Cube(s.mx))
Weight(s, c) == RMul(IF c.kind = "vll" /\ c.gens[2] # c.gens[3] THEN 16 ELSE IF c.kind = "vvv" THEN IF c.other = s.n THEN 32 ELSE 16
                     ELSE IF c.kind = "vpp" THEN RMul(1, Sq(RSub(1, RMul(2, SW2)))) ELSE IF c.kind = "lpp" THEN RMul(2, Sq(Vud)) ELSE 2,
                     RMul(Sq(GF), U2(st)))
Integrals == st.theta # "1/1000" \/ \A i \in 1..Len(Cs) : LET c == Cs[i] IN
  (Len(c.parts) = 3 /\ Open(st, c)) =>
    RClose(RDiv(RMul(Weight(st, c), Dalitz(st, c)), RMul(256, Cube(RPi))), RMul(IF c.kind = "vvv" THEN 6 ELSE 1, One(st, c, Unit)), "1e-4", 0)
\* the angle enters every width alike; far above all thresholds the widths grow with fixed powers of the mass
Mixing == LET o == [st EXCEPT !.theta = "1/7"] r == RDiv(U2(o), U2(st)) IN
  \A i \in 1..Len(Cs) : RClose(Width(o, Cs[i], Unit), RMul(r, W(i)), "1e-20", 0)
Massless == LET big == [st EXCEPT !.mx = "1e6"] IN
  \A i \in 1..Len(Cs) : Cs[i].kind = "vll" /\ Cs[i].gens[2] # Cs[i].gens[3] =>
     RClose(One(big, Cs[i], Unit), RDiv(Five(big), RMul(192, Cube(RPi))), "1e-3", 0)
Lines == /\ \A nm \in PhotonLines(st) : REq(LineOf("photon", st, nm), RDiv(st.mx, 2))
         /\ \A nm \in PositronLines(st) : RLt(LineOf("positron", st, nm), RDiv(RAdd(st.mx, 1), 2)) /\ RLt(Mass["e"], LineOf("positron", st, nm))
         /\ \A nm \in NeutrinoLines(st) : RLeq(LineOf("neutrino", st, nm), RDiv(st.mx, 2)) /\ RLt(0, LineOf("neutrino", st, nm))
=============================================================================
