----------------------------- MODULE RhNeutrino ----------------------------
(***************************************************************************)
(* A right-handed neutrino mixing with one active flavour: its partial     *)
(* widths, monochromatic lines and the squared matrix elements that shape  *)
(* its spectra.  The state is the model: mass, mixing angle, flavour       *)
(* (1 electron, 2 muon, 3 tau; 0 before there is a model).                 *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, SequencesExt, FiniteSets, TLC
Alpha == RDiv(1, "137.04")
GF == "1.1663787e-11"
Vud == "0.974352121697273"
Vus == "0.22499846626868697"
SW2 == RMul("0.47212286536451503", "0.47212286536451503")
Decay == [pi0 |-> "91.924", eta |-> "57.8", pi |-> "92.2138", k |-> "110.379"]
Vector == [rho |-> [g |-> "162000", k |-> RSub(1, RMul(2, SW2))], omega |-> [g |-> "153000", k |-> RMul("4/3", SW2)],
           phi |-> [g |-> "234000", k |-> RSub(RMul("4/3", SW2), 1)]]
Mass == [e |-> "0.5109989461", mu |-> "105.6583745", tau |-> "1776.86", ve |-> "0", vm |-> "0", vt |-> "0", a |-> "0",
         pi |-> "139.57039", pi0 |-> "134.9768", k |-> "493.677", eta |-> "547.862", rho |-> "775.26", omega |-> "782.66", phi |-> "1019.461"]
L == <<"e", "mu", "tau">>
V == <<"ve", "vm", "vt">>
Sq(x) == RMul(x, x)
Cube(x) == RMul(x, Sq(x))
---------------------------------------------------------------------------
\* Channels of flavour n
Join(ps) == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o " " \o b, "", ps)
Others(n) == SetToSeq({1, 2, 3} \ {n})
Two(n) == [i \in 1..6 |-> [kind |-> "v2", parts |-> <<V[n], <<"a", "pi0", "eta", "rho", "omega", "phi">>[i]>>]]
          \o [i \in 1..3 |-> [kind |-> "l2", parts |-> <<L[n], <<"k", "pi", "rho">>[i]>>]]
Trip(n) == LET o == Others(n) IN <<<<n, n, n>>, <<n, o[1], o[1]>>, <<n, o[2], o[2]>>, <<o[1], n, o[1]>>, <<o[1], o[1], n>>, <<o[2], n, o[2]>>, <<o[2], o[2], n>>>>
Channels(n) ==
  Two(n) \o <<[kind |-> "vpp", parts |-> <<V[n], "pi", "pi">>], [kind |-> "lpp", parts |-> <<L[n], "pi", "pi0">>]>>
  \o [i \in 1..7 |-> LET t == Trip(n)[i] IN [kind |-> "vll", gens |-> t, parts |-> <<V[t[1]], L[t[2]], L[t[3]]>>]]
  \o [i \in 1..3 |-> [kind |-> "vvv", other |-> i, parts |-> <<V[n], V[i], V[i]>>]]
NameOf(c) == Join(c.parts)
Names(n) == {NameOf(Channels(n)[i]) : i \in 1..Len(Channels(n))}
Channel(n, name) == LET cs == Channels(n) IN cs[CHOOSE i \in 1..Len(cs) : NameOf(cs[i]) = name]
\* pions of one charge and of none count as equally heavy in the two-pion widths
Limit(c) == IF c.kind = "lpp" THEN RAdd(Mass[c.parts[1]], RMul(2, Mass["pi"])) ELSE RSum([i \in 1..Len(c.parts) |-> Mass[c.parts[i]]])
Open(s, c) == RLeq(Limit(c), s.mx)
\* particle and antiparticle channels are counted together
Both(c) == CASE c.kind \in {"l2", "lpp"} -> 2 [] c.kind = "vll" -> IF c.gens[2] = c.gens[3] THEN 1 ELSE 2 [] OTHER -> 1
---------------------------------------------------------------------------
\* the mixing: tan(2 theta)/2
Sin(x) == LET t[i \in 0..14] == IF i = 0 THEN x ELSE RRound(RMul(RNeg(RDiv(Sq(x), (2 * i) * (2 * i + 1))), t[i - 1])) IN RSum([i \in 1..15 |-> t[i - 1]])
Tan(x) == LET sn == Sin(x) h == Sin(RDiv(x, 2)) IN RDiv(sn, RSub(1, RMul(2, Sq(h))))
U2(s) == Sq(RDiv(Tan(RMul(2, s.theta)), 2))
Kallen(a, b, c) == RSub(Sq(RSub(RSub(a, b), c)), RMul(4, RMul(b, c)))
Root(x) == IF RLeq(x, 0) THEN "0" ELSE RSqrt(x)
Shape(l2, h2) == RSum(<<Sq(RSub(1, l2)), RMul(h2, RAdd(1, l2)), RMul(-2, Sq(h2))>>)
Simpson(n, f(_)) ==                              \* n even intervals of [0, 1]
  RDiv(RSum([j \in 1..(n + 1) |-> RMul(IF j \in {1, n + 1} THEN 1 ELSE IF j % 2 = 0 THEN 4 ELSE 2, RRound(f(j - 1)))]), 3 * n)
Base(s) == RMul(RMul(Sq(GF), U2(s)), Cube(s.mx))
Five(s) == RMul(Base(s), Sq(s.mx))
\* one lepton pair through the neutral current, closed form
Neutral(x2, same) ==
  LET sg == IF same THEN 1 ELSE -1
      c1 == RDiv(RSum(<<1, RMul(4 * sg, SW2), RMul(8, Sq(SW2))>>), 4)
      c2 == RMul(RDiv(SW2, 2), RAdd(RMul(2, SW2), sg))
      sx == Root(RSub(1, RMul(4, x2)))
      x4 == Sq(x2)  x6 == RMul(x2, x4)
      lx == RLn(RDiv(RSub(RSub(1, RMul(3, x2)), RMul(RSub(1, x2), sx)), RMul(x2, RAdd(1, sx))))
      t1 == RAdd(RMul(sx, RSum(<<1, RMul(-14, x2), RMul(-2, x4), RMul(-12, x6)>>)), RMul(RMul(12, x4), RMul(RSub(x4, 1), lx)))
      t2 == RAdd(RMul(RMul(x2, sx), RSum(<<2, RMul(10, x2), RMul(-12, x4)>>)), RMul(RMul(6, x4), RMul(RSum(<<1, RMul(-2, x2), RMul(2, x4)>>), lx)))
  IN RAdd(RMul(c1, t1), RMul(RMul(4, c2), t2))
\* two different charged leptons: with z = a^2 + b^2 + 2ab cosh(w) the pair's invariant mass,
\* the phase space root is 2ab sinh(w)
Charged(a, b) ==
  LET ab == RMul(2, RMul(a, b))
      c == RDiv(RSub(RSub(1, Sq(a)), Sq(b)), ab)
      top == RLn(RAdd(c, Root(RSub(Sq(c), 1))))
      at(j) == LET ew == RExp(RMul(top, RDiv(j, 200)))
                   ch == RDiv(RAdd(ew, RDiv(1, ew)), 2)  sh == RDiv(RSub(ew, RDiv(1, ew)), 2)
                   z == RSum(<<Sq(a), Sq(b), RMul(ab, ch)>>)
               IN RMul(RMul(RDiv(12, z), RMul(ab, ch)), RMul(Sq(RSub(1, z)), Sq(RMul(ab, sh))))
  IN RMul(top, Simpson(200, at))
\* pion pairs: the form factor's square is given at n+1 pair masses (given.ff)
Nodes == 240
PairMass(lo, hi, j) == LET w == RDiv(j, Nodes) IN RAdd(lo, RMul(RSub(hi, lo), RMul(Sq(w), RSub(3, RMul(2, w)))))
Jac(lo, hi, j) == LET w == RDiv(j, Nodes) IN RMul(RSub(hi, lo), RMul(6, RMul(w, RSub(1, w))))
Bottom == RMul(2, Mass["pi"])
Top(s, c) == RSub(s.mx, Mass[c.parts[1]])
Pions(s, c, ff) ==
  LET hi == Top(s, c)  l2 == Sq(RDiv(Mass[c.parts[1]], s.mx))
      at(j) == LET q == PairMass(Bottom, hi, j)
                   z == Sq(RDiv(q, s.mx))
                   beta == Root(RSub(1, Sq(RDiv(Bottom, q))))
                   body == IF c.kind = "vpp" THEN RMul(Sq(RSub(1, z)), RAdd(1, RMul(2, z))) ELSE RMul(Shape(l2, z), Root(Kallen(1, z, l2)))
               IN RMul(RMul(RMul(2, q), Jac(Bottom, hi, j)), RMul(RMul(Cube(beta), body), ff[j + 1]))
  IN Simpson(Nodes, at)
\* the width of one of the two charge states
One(s, c, ff) ==
  LET p == c.parts  h == p[2]  mx == s.mx
      h2 == Sq(RDiv(Mass[h], mx))  l2 == Sq(RDiv(Mass[p[1]], mx))
  IN CASE c.kind = "v2" /\ h = "a" -> RMul(RDiv(RMul(9, Alpha), RMul(256, RPow(RPi, 4))), Five(s))
       [] c.kind = "v2" /\ h \in {"pi0", "eta"} -> RMul(RMul(Base(s), Sq(Decay[h])), RDiv(Sq(RSub(1, h2)), RMul(64, RPi)))
       [] c.kind = "v2" -> RMul(RMul(Base(s), Sq(RDiv(RMul(Vector[h].k, Vector[h].g), Mass[h]))),
                                RDiv(RMul(RAdd(1, RMul(2, h2)), Sq(RSub(1, h2))), RMul(32, RPi)))
       [] c.kind = "l2" ->
            RMul(RMul(Base(s), CASE h = "pi" -> RDiv(Sq(RMul(Vud, Decay["pi"])), 32) [] h = "k" -> RDiv(Sq(RMul(Vus, Decay["k"])), 32)
                                 [] OTHER -> RDiv(Sq(RMul(Vud, RDiv(Vector["rho"].g, Mass["rho"]))), 16)),
                 RDiv(RMul(Shape(l2, h2), Root(Kallen(1, h2, l2))), RPi))
       [] c.kind = "vpp" -> RMul(RMul(Base(s), Sq(RSub(1, RMul(2, SW2)))), RDiv(Pions(s, c, ff), RMul(768, Cube(RPi))))
       [] c.kind = "lpp" -> RMul(RMul(Base(s), Sq(Vud)), RDiv(Pions(s, c, ff), RMul(384, Cube(RPi))))
       [] c.kind = "vvv" -> RMul(IF c.other = s.n THEN 2 ELSE 1, RDiv(Five(s), RMul(768, Cube(RPi))))
       [] OTHER ->
            LET g == c.gens
                f == IF g[2] = g[3] THEN Neutral(Sq(RDiv(Mass[L[g[2]]], mx)), g[2] = s.n)
                     ELSE Charged(RDiv(Mass[L[g[2]]], mx), RDiv(Mass[L[g[3]]], mx))
            IN RDiv(RMul(Five(s), f), RMul(192, Cube(RPi)))
Width(s, c, ff) == IF Open(s, c) THEN RMul(Both(c), One(s, c, ff)) ELSE "0"
---------------------------------------------------------------------------
\* Squared matrix elements of the three-body channels, up to a factor: coefficients of
\* 1, s, t, s^2, st, t^2, with s = (p2+p3)^2 and t = (p1+p3)^2, particles ordered as in Order
Order(s, c) ==
  CASE c.kind = "lpp" -> <<c.parts[1], "pi0", "pi">>
    [] c.kind = "vll" /\ c.gens[1] # s.n -> <<V[c.gens[1]], L[c.gens[1]], L[s.n]>>
    [] c.kind = "v2" /\ c.parts[2] = "rho" -> <<c.parts[1], "rho0">>      \* the neutral one
    [] OTHER -> c.parts
Element(s, c) ==
  LET m2 == Sq(s.mx)  q2 == Sq(Mass["pi"]) IN
  CASE c.kind = "vpp" -> <<RAdd(Sq(m2), RMul(4, Sq(q2))), RNeg(m2), RMul(-4, RAdd(m2, RMul(2, q2))), "0", "4", "4">>
    [] c.kind = "lpp" -> LET w == RAdd(m2, Sq(Mass[c.parts[1]])) IN
         <<RAdd(Sq(w), RMul(4, Sq(q2))), RNeg(w), RMul(-4, RAdd(w, RMul(2, q2))), "0", "4", "4">>
    [] c.kind = "vvv" -> <<"0", m2, m2, "-1", "-1", "-1">>
    [] c.kind = "vll" /\ c.gens[2] = c.gens[3] ->
         LET a == RSum(<<1, RMul(IF c.gens[2] = s.n THEN 4 ELSE -4, SW2), RMul(8, Sq(SW2))>>)
             f2 == Sq(Mass[c.parts[2]])
         IN <<RNeg(RAdd(RMul(RMul(2, a), Sq(f2)), RMul(2, RMul(f2, m2)))), RAdd(RMul(2, f2), RMul(a, m2)), RAdd(RMul(4, RMul(a, f2)), RMul(RMul(2, a), m2)),
              RNeg(a), RMul(-2, a), RMul(-2, a)>>
    [] c.kind = "vll" ->                         \* neutrino and lepton of the new generation come from the W: 2 (N.d)(l.v)
         LET d2 == Sq(Mass[L[c.gens[1]]])  l2 == Sq(Mass[L[s.n]])  w == RAdd(m2, d2) IN
         <<RNeg(RMul(w, l2)), "0", RAdd(w, l2), "0", "0", "-1">>
    [] OTHER -> <<>>
HasFactor(c) == c.kind \in {"vpp", "lpp"}
---------------------------------------------------------------------------
\* Lines: the photon; charged leptons next to a meson when they are electrons
LineAt(s, m, o) == RDiv(RAdd(Sq(s.mx), RSub(Sq(m), Sq(o))), RMul(2, s.mx))
PhotonLines(s) == {V[s.n] \o " a"}
PositronLines(s) == IF s.n = 1 THEN {"e " \o h : h \in {x \in {"pi", "k", "rho"} : RLt(RAdd(Mass["e"], Mass[x]), s.mx)}} ELSE {}
NeutrinoLines(s) == {V[s.n] \o " " \o h : h \in {x \in {"a", "pi0", "eta", "rho", "omega", "phi"} : RLt(Mass[x], s.mx)}}
LineOf(kind, s, name) == LET p == Channel(s.n, name).parts IN
  IF kind = "photon" THEN LineAt(s, Mass[p[2]], Mass[p[1]]) ELSE LineAt(s, Mass[p[1]], Mass[p[2]])
---------------------------------------------------------------------------
Number(fl) == IF \E i \in 1..3 : L[i] = fl THEN CHOOSE i \in 1..3 : L[i] = fl ELSE 0
Fresh == [mx |-> "0", theta |-> "0", n |-> 0]
ApplyR(s, o) ==
  CASE o.op = "new" -> IF Number(o.fl) = 0 THEN s ELSE [mx |-> o.mx, theta |-> o.theta, n |-> Number(o.fl)]
    [] o.op = "mx" -> [s EXCEPT !.mx = o.mx]
    [] o.op = "theta" -> [s EXCEPT !.theta = o.theta]
    [] o.op = "flavor" -> IF Number(o.fl) = 0 THEN s ELSE [s EXCEPT !.n = Number(o.fl)]
    [] OTHER -> s
=============================================================================
