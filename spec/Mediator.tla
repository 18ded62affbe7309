------------------------------ MODULE Mediator ------------------------------
(***************************************************************************)
(* Dark matter coupled through a scalar or a vector mediator: couplings of *)
(* the named models, partial widths, annihilation, lines and radiation.    *)
(* The state is the model and its parameters; nothing else may matter, in  *)
(* particular not the order in which parameters were set.                  *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, SequencesExt, FiniteSets, TLC
Alpha == RDiv(1, "137.04")
Vh == "246227.95"
Fpi == "92.2138"
Me == "0.5109989461"
Mmu == "105.6583745"
Mpi == "139.57039"
Mpi0 == "134.9768"
Chiral == RDiv(RAdd(Mpi, Mpi0), 2)
Sq(x) == RMul(x, x)
Cube(x) == RMul(x, Sq(x))
Prod(xs) == FoldLeft(LAMBDA a, b : RMul(a, b), "1", xs)
Root(x) == IF RLeq(x, 0) THEN "0" ELSE RRound(RSqrt(x))
P32(x) == RMul(x, Root(x))
Simpson(n, f(_)) == RDiv(RSum([j \in 1..(n + 1) |-> RMul(IF j \in {1, n + 1} THEN 1 ELSE IF j % 2 = 0 THEN 4 ELSE 2, RRound(f(j - 1)))]), 3 * n)
---------------------------------------------------------------------------
\* The models and the parameters they may be given
Params == [scalar |-> <<"mx", "ms", "gsxx", "gsff", "gsGG", "gsFF", "lam">>, higgs |-> <<"mx", "ms", "gsxx", "stheta">>,
           heavy |-> <<"mx", "ms", "gsxx", "gsQ", "mQ", "QQ">>,
           vector |-> <<"mx", "mv", "gvxx", "gvuu", "gvdd", "gvss", "gvee", "gvmumu">>, mixing |-> <<"mx", "mv", "gvxx", "eps">>,
           quarks |-> <<"mx", "mv", "gvxx", "gvuu", "gvdd", "gvss">>]
Fixed == [scalar |-> {}, vector |-> {}, higgs |-> {"gsff", "gsGG", "gsFF"}, heavy |-> {"gsff", "gsGG", "gsFF"},
          mixing |-> {"gvuu", "gvdd", "gvss", "gvee", "gvmumu"}, quarks |-> {"gvee", "gvmumu"}]
Scalar(s) == s.cls \in {"scalar", "higgs", "heavy"}
Fresh == [cls |-> "none", p |-> <<>>]
ApplyM(s, o) ==
  CASE o.op = "new" -> [cls |-> o.cls, p |-> o.p]
    [] o.op = "set" /\ o.name \notin Fixed[s.cls] -> [s EXCEPT !.p[o.name] = o.value]
    [] OTHER -> s
\* what they all reduce to
Common(s) == LET p == s.p IN
  CASE s.cls = "scalar" -> [ff |-> p.gsff, gg |-> p.gsGG, aa |-> p.gsFF, lam |-> p.lam]
    [] s.cls = "higgs" -> [ff |-> p.stheta, gg |-> RMul(3, p.stheta), aa |-> RMul("-5/6", p.stheta), lam |-> Vh]
    [] s.cls = "heavy" -> [ff |-> "0", gg |-> p.gsQ, aa |-> RMul(2, RMul(p.gsQ, Sq(p.QQ))), lam |-> p.mQ]
    [] s.cls = "vector" -> [uu |-> p.gvuu, dd |-> p.gvdd, ss |-> p.gvss, ee |-> p.gvee, mm |-> p.gvmumu]
    [] s.cls = "mixing" -> LET q == RMul(p.eps, RSqrt(RMul(RMul(4, RPi), Alpha))) IN  \* minus the electric charges
         [uu |-> RMul("-2/3", q), dd |-> RDiv(q, 3), ss |-> RDiv(q, 3), ee |-> q, mm |-> q]
    [] OTHER -> [uu |-> p.gvuu, dd |-> p.gvdd, ss |-> p.gvss, ee |-> "0", mm |-> "0"]
Med(s) == IF Scalar(s) THEN s.p.ms ELSE s.p.mv
Gxx(s) == IF Scalar(s) THEN s.p.gsxx ELSE s.p.gvxx
Readable(s) == [n \in ToSet(Params[s.cls]) |-> s.p[n]]
Effective(s) == LET c == Common(s) IN IF Scalar(s) THEN <<c.ff, c.gg, c.aa, c.lam>> ELSE <<c.uu, c.dd, c.ss, c.ee, c.mm>>
States(s) == CASE s.cls \in {"scalar", "higgs"} -> {"mu mu", "e e", "g g", "pi0 pi0", "pi pi", "s s"}
               [] s.cls = "heavy" -> {"g g", "pi0 pi0", "pi pi", "s s"}
               [] s.cls \in {"vector", "mixing"} -> {"mu mu", "e e", "pi pi", "pi0 g", "pi0 v", "v v"}
               [] OTHER -> {"pi pi", "pi0 g", "pi0 v", "v v"}
Decays(s) == IF Scalar(s) THEN <<"g g", "pi0 pi0", "pi pi", "x x", "e e", "mu mu">> ELSE <<"pi pi", "pi0 g", "x x", "e e", "mu mu">>
---------------------------------------------------------------------------
\* Partial widths of a mediator of mass q: Width, and a scale no cancellation reduces
Mass(s, n) == CASE n = "e" -> Me [] n = "mu" -> Mmu [] n = "pi" -> Mpi [] n = "pi0" -> Mpi0 [] n = "x" -> s.p.mx
                [] n \in {"s", "v"} -> Med(s) [] OTHER -> "0"
Parts(ch) == CASE ch = "g g" -> <<"g", "g">> [] ch = "pi0 pi0" -> <<"pi0", "pi0">> [] ch = "pi pi" -> <<"pi", "pi">> [] ch = "x x" -> <<"x", "x">>
               [] ch = "e e" -> <<"e", "e">> [] ch = "mu mu" -> <<"mu", "mu">> [] ch = "pi0 g" -> <<"pi0", "g">> [] ch = "pi0 v" -> <<"pi0", "v">>
               [] ch = "s s" -> <<"s", "s">> [] OTHER -> <<"v", "v">>
Threshold(s, ch) == RAdd(Mass(s, Parts(ch)[1]), Mass(s, Parts(ch)[2]))
Pair(q, m) == RSub(Sq(q), RMul(4, Sq(m)))        \* q^2 - 4 m^2
\* pions: the trace anomaly and the quark masses, 2g(q^2-2m^2)/9L + (2g/3L + f/v) m_pi^2
PiTerms(s, q, m) == LET c == Common(s) IN
  <<RMul(RDiv(RMul(2, c.gg), RMul(9, c.lam)), RSub(Sq(q), RMul(2, Sq(m)))),
    RMul(Sq(Chiral), RDiv(RMul(2, c.gg), RMul(3, c.lam))), RMul(Sq(Chiral), RDiv(c.ff, Vh))>>
Meson(t, q, m, same) == RDiv(RMul(Sq(t), Root(Pair(q, m))), Prod(<<IF same THEN 32 ELSE 16, RPi, Sq(q)>>))
Yukawa(g, q, m) == RDiv(RMul(Sq(g), P32(Pair(q, m))), Prod(<<8, RPi, Sq(q)>>))
Current(g, q, m) == RDiv(Prod(<<Sq(g), Root(Pair(q, m)), RAdd(Sq(q), RMul(2, Sq(m)))>>), Prod(<<12, RPi, Sq(q)>>))
\* the pion's coupling to two currents (the colours count three times)
Anomaly(g, q, k) == RDiv(RMul(Sq(g), Cube(k)), Prod(<<192, Sq(Sq(RPi)), Sq(Fpi), RPi>>))
K(q, a, b) == LET x == RSub(RSub(Sq(q), Sq(a)), Sq(b)) IN RDiv(Root(RSub(Sq(x), RMul(4, RMul(Sq(a), Sq(b))))), RMul(2, q))
Bare(s, ch, q) ==
  LET c == Common(s)  m == Mass(s, Parts(ch)[1]) IN
  IF Scalar(s) THEN
    CASE ch = "g g" -> RDiv(Prod(<<Sq(Alpha), Sq(c.aa), Cube(q)>>), Prod(<<64, Sq(c.lam), Cube(RPi)>>))
      [] ch \in {"pi0 pi0", "pi pi"} -> Meson(RSum(PiTerms(s, q, m)), q, m, ch = "pi0 pi0")
      [] ch = "x x" -> Yukawa(Gxx(s), q, m)
      [] OTHER -> Yukawa(RDiv(RMul(c.ff, m), Vh), q, m)
  ELSE
    CASE ch = "pi pi" -> RDiv(RMul(Sq(RSub(c.dd, c.uu)), P32(Pair(q, m))), Prod(<<48, RPi, Sq(q)>>))
      [] ch = "pi0 g" -> Prod(<<4, RPi, Alpha, Anomaly(RAdd(RMul(2, c.uu), c.dd), q, K(q, m, 0))>>)
      [] ch = "pi0 v" -> Anomaly(RMul(3, RSub(Sq(c.uu), Sq(c.dd))), q, K(q, m, Med(s)))
      [] OTHER -> Current(IF ch = "x x" THEN Gxx(s) ELSE IF ch = "e e" THEN c.ee ELSE c.mm, q, m)
Width(s, ch, q) == IF RLt(Threshold(s, ch), q) THEN Bare(s, ch, q) ELSE "0"
Slack(s, ch, q) == IF Scalar(s) /\ ch \in {"pi0 pi0", "pi pi"} /\ RLt(Threshold(s, ch), q)
                   THEN LET m == Mass(s, Parts(ch)[1]) t == PiTerms(s, q, m) IN Meson(RSum([i \in 1..3 |-> RAbs(t[i])]), q, m, ch = "pi0 pi0") ELSE "0"
Total(s) == RSum([i \in 1..Len(Decays(s)) |-> Width(s, Decays(s)[i], Med(s))])
---------------------------------------------------------------------------
\* Annihilation at centre-of-mass energy e
Peak(s, e) == LET m2 == Sq(Med(s)) IN RAdd(Sq(RSub(Sq(e), m2)), RMul(m2, Sq(Total(s))))
Inflow(s, e) == IF Scalar(s) THEN RDiv(RMul(Sq(Gxx(s)), Root(Pair(e, s.p.mx))), RMul(2, Peak(s, e)))
                ELSE RDiv(RMul(Sq(Gxx(s)), RAdd(Sq(e), RMul(2, Sq(s.p.mx)))), RMul(Root(Pair(e, s.p.mx)), Peak(s, e)))
\* into two mediators: forward and backward exchange
Logs(s, e) == LET a == RSub(Sq(e), RMul(2, Sq(Med(s))))  b == RMul(Root(Pair(e, s.p.mx)), Root(Pair(e, Med(s)))) IN
              [a |-> a, b |-> b, l |-> RLn(RDiv(RAdd(a, b), RSub(a, b)))]
TwoScalars(s, e) ==
  LET x == Sq(s.p.mx)  m == Sq(s.p.ms)  z == Sq(e)  t == Logs(s, e)
      u == RDiv(RMul(t.b, RSum(<<RMul(RMul(2, x), RAdd(z, RMul(8, x))), RMul(3, Sq(m)), RMul(-16, RMul(m, x))>>)),
                RSum(<<RMul(x, z), RMul(-4, RMul(m, x)), Sq(m)>>))
      v == RDiv(RMul(RSum(<<Sq(z), RMul(16, RMul(x, z)), RMul(-4, RMul(m, z)), RMul(-16, RMul(m, x)), RMul(6, Sq(m)), RMul(-32, Sq(x))>>), t.l), t.a)
  IN RDiv(RMul(Sq(Sq(Gxx(s))), RSub(v, u)), Prod(<<32, RPi, z, Pair(e, s.p.mx)>>))
TwoVectors(s, e) ==
  LET x == Sq(s.p.mx)  m == Sq(s.p.mv)  z == Sq(e)  t == Logs(s, e)
      u == RDiv(Prod(<<2, t.b, RSum(<<RMul(x, z), RMul(2, Sq(m)), RMul(4, Sq(x))>>)>>), RSum(<<RMul(x, z), RMul(-4, RMul(m, x)), Sq(m)>>))
      v == RDiv(Prod(<<2, RSum(<<Sq(z), RMul(4, RMul(x, z)), RMul(4, Sq(m)), RMul(-8, RMul(m, x)), RMul(-8, Sq(x))>>), t.l>>), t.a)
  IN RDiv(RMul(Sq(Sq(Gxx(s))), RSub(v, u)), Prod(<<16, RPi, z, Pair(e, s.p.mx)>>))
Above(s, ch, e) == RLt(RMul(2, s.p.mx), e) /\ RLt(Threshold(s, ch), e)
Sigma(s, ch, e) == IF ~Above(s, ch, e) THEN "0"
                   ELSE CASE ch = "s s" -> TwoScalars(s, e) [] ch = "v v" -> TwoVectors(s, e) [] OTHER -> RMul(Inflow(s, e), Width(s, ch, e))
\* mediators annihilating back into dark matter: twice the particles, four times the spins
Back(s, e) == IF Above(s, "s s", e) THEN RDiv(Prod(<<8, Pair(e, s.p.mx), TwoScalars(s, e)>>), Pair(e, s.p.ms)) ELSE "0"
\* dark matter scattering off its antiparticle
SelfElement(s, e, z) ==
  LET m == Sq(s.p.mx)  M == Sq(Med(s))  S == Sq(e)  t == RMul(RDiv(Pair(e, s.p.mx), -2), RSub(1, z))  u == RSub(RSub(RMul(4, m), S), t)
      w2 == RMul(M, Sq(Total(s)))
      a == RSub(t, M)  b == RSub(S, M)
      tt == RDiv(1, RAdd(Sq(a), w2))  ss == RDiv(1, RAdd(Sq(b), w2))  st == RMul(RAdd(RMul(a, b), w2), RMul(tt, ss))
      d(x) == RSub(m, RDiv(x, 2))                \* products of momenta
      p12 == RSub(RDiv(S, 2), m)  p13 == d(t)  p14 == d(u)
      tr == RMul(4, RSum(<<Sq(p13), RNeg(Sq(p14)), Sq(p12), RMul(RMul(2, m), RSub(RSub(p13, p14), p12)), Sq(m)>>))
      h(x) == RSub(x, RMul(2, m))
  IN IF Scalar(s) THEN RSum(<<Prod(<<4, Sq(RSub(RMul(4, m), t)), tt>>), Prod(<<4, Sq(RSub(S, RMul(4, m))), ss>>), Prod(<<-2, tr, st>>)>>)
     ELSE RSum(<<Prod(<<8, RSum(<<Sq(h(S)), Sq(h(u)), Prod(<<4, m, t>>)>>), tt>>), Prod(<<8, RSum(<<Sq(h(t)), Sq(h(u)), Prod(<<4, m, S>>)>>), ss>>),
                 Prod(<<16, h(u), RSub(u, RMul(6, m)), st>>)>>)
\* over angles, in equal steps of ln(t - M^2) (light mediators scatter forwards)
SelfSigma(s, e) == IF RLeq(e, RMul(2, s.p.mx)) THEN "0" ELSE
  LET d == RDiv(RMul(2, Sq(Med(s))), Pair(e, s.p.mx))  n == 80  l == RLn(RAdd(1, RDiv(2, d)))
      f(j) == LET y == RRound(RMul(d, RExp(RMul(l, RDiv(j, n))))) IN RRound(Prod(<<SelfElement(s, e, RSub(RAdd(1, d), y)), y, l>>))
  IN RDiv(RMul(Sq(Sq(Gxx(s))), Simpson(n, f)), Prod(<<128, RPi, Sq(e)>>))
---------------------------------------------------------------------------
\* Photons radiated by the pair (the same soft limit for all)
Radiated(s, kind, m, q, e) ==                    \* kind: "ff" or "pipi"
  LET x == RDiv(RMul(2, e), q)  mu == Sq(RDiv(m, q))  b == Root(RSub(1, RMul(4, mu)))  y == RSub(1, x)
      v == Root(RSub(1, RDiv(RMul(4, mu), y)))  l == RLn(RDiv(RAdd(1, v), RSub(1, v)))
      lead == RDiv(RMul(IF kind = "ff" THEN 2 ELSE 4, Alpha), Prod(<<RPi, q, x>>))
      hard == RAdd(1, Sq(y))
  IN IF RLeq(e, 0) \/ RLeq(q, RMul(2, m)) \/ RLeq(q, RMul(2, s.p.mx)) \/ RLeq(y, RMul(4, mu)) THEN "0"
     ELSE RMul(lead,
       IF Scalar(s) /\ kind = "ff" THEN RDiv(RSub(RMul(RAdd(Sq(RAdd(x, RMul(4, mu))), RMul(2, RSub(y, RMul(6, mu)))), l), Prod(<<2, y, Sq(b), v>>)), Cube(b))
       ELSE IF Scalar(s) THEN RDiv(RSub(RMul(RSub(y, RMul(2, mu)), l), RMul(y, v)), b)
       ELSE IF kind = "ff" THEN RDiv(RSub(RMul(RSub(hard, RMul(RMul(4, mu), RAdd(x, RMul(2, mu)))), l), RMul(v, RAdd(hard, Prod(<<4, y, mu>>)))),
                                     RMul(b, RAdd(1, RMul(2, mu))))
       ELSE RDiv(RSub(Prod(<<RSub(y, RMul(2, mu)), Sq(b), l>>), RMul(v, RSub(RMul(y, Sq(b)), Sq(x)))), Cube(b)))
Soft(m, q) == LET b == Root(RSub(1, RMul(4, Sq(RDiv(m, q))))) IN
  Prod(<<4, RDiv(Alpha, RMul(RPi, q)), RSub(RMul(RDiv(RAdd(1, Sq(b)), RMul(2, b)), RLn(RDiv(RAdd(1, b), RSub(1, b)))), 1)>>)
Kind(ch) == IF ch = "pi pi" THEN "pipi" ELSE "ff"
Fsr(s, ch, q, e) == IF ch \in {"e e", "mu mu", "pi pi"} THEN Radiated(s, Kind(ch), Mass(s, Parts(ch)[1]), q, e) ELSE "0"
\* energies of the two products
First(s, ch, q) == LET a == Mass(s, Parts(ch)[1]) b == Mass(s, Parts(ch)[2]) IN RDiv(RAdd(Sq(q), RSub(Sq(a), Sq(b))), RMul(2, q))
Second(s, ch, q) == RSub(q, First(s, ch, q))
\* what decays: how many of the first product's spectra
Copies(ch) == CASE ch \in {"mu mu", "pi pi", "pi0 pi0"} -> 2 [] ch \in {"pi0 g", "pi0 v"} -> 1 [] OTHER -> 0
=============================================================================
