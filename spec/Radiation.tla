----------------------------- MODULE Radiation -----------------------------
(***************************************************************************)
(* Photons radiated in the final state: the splitting approximation, the   *)
(* exact ratio of phase-space integrals, and averages over a distribution  *)
(* of centre-of-mass energies.  The state is the process and the average   *)
(* in hand.                                                                *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, SequencesExt, TLC
PS == INSTANCE PhaseSpace

Alpha == RDiv(1, "137.04")
Sq(x) == RMul(x, x)
---------------------------------------------------------------------------
\* q^2 alpha/2pi * split(x) * (ln(s(1-x)/m^2) - 1), while that logarithm exceeds 1
Split(kind, x) == IF kind = "scalar" THEN RDiv(RMul(2, RSub(1, x)), x) ELSE RDiv(RAdd(1, Sq(RSub(1, x))), x)
Ratio(x, s, m) == RDiv(RMul(s, RSub(1, x)), Sq(m))
ApX(kind, x, s, m, q) ==
  IF RLeq(1, x) \/ RLeq(RLn(Ratio(x, s, m)), 1) THEN "0"
  ELSE RMul(RDiv(RMul(Sq(q), Alpha), RMul(2, RPi)), RMul(Split(kind, x), RSub(RLn(Ratio(x, s, m)), 1)))
ApE(kind, e, s, m, q) == LET j == RDiv(2, RSqrt(s)) IN RMul(j, ApX(kind, RMul(e, j), s, m, q))
---------------------------------------------------------------------------
\* The radiative ratio.  Squared matrix elements are polynomials in invariants:
\* rad[1] + rad[2] P.k + rad[3] p1.k + rad[4] (p1.k)(p2.k) + rad[5]/(p1.k), P the sum of the momenta
\* (the last three for pairs only); non[1] + non[2] P^2.
S(p) == Sq(p.cme)
Total(p) == RSum(p.masses)
EMax(p) == RDiv(RSub(S(p), Sq(Total(p))), RMul(2, p.cme))
Reduced(p, e) == RSub(S(p), RMul(2, RMul(p.cme, e)))
Volume(q, ms) == PS!Volume([cme |-> q, masses |-> ms])
Rad(p, e) ==                                     \* average over directions at photon energy e
  LET sp == Reduced(p, e)  q == RSqrt(sp)
      k == RDiv(RMul(e, p.cme), q)
      pk == RMul(e, p.cme)                       \* P.k
      m1 == p.masses[1]  m2 == p.masses[2]
      e1 == RDiv(RAdd(sp, RSub(Sq(m1), Sq(m2))), RMul(2, q))
      e2 == RSub(q, e1)
      mom == RSqrt(RSub(Sq(e1), Sq(m1)))
      flat == RAdd(p.rad[1], RMul(p.rad[2], pk))
  IN IF Len(p.masses) > 2 THEN flat
     ELSE RSum(<<flat, RMul(p.rad[3], RMul(k, e1)),
                 RMul(p.rad[4], RMul(Sq(k), RSub(RMul(e1, e2), RDiv(Sq(mom), 3)))),
                 IF REq(p.rad[5], 0) THEN "0"
                 ELSE RMul(p.rad[5], RDiv(RLn(RDiv(RAdd(e1, mom), RSub(e1, mom))), RMul(2, RMul(mom, k))))>>)
Non(p) == RAdd(p.non[1], RMul(p.non[2], S(p)))
Inside(p, e) == RLt(0, e) /\ RLt(e, EMax(p))
Fsr(p, e) ==
  IF ~Inside(p, e) THEN "0"
  ELSE RDiv(RMul(RMul(RDiv(e, RMul(4, Sq(RPi))), Volume(RSqrt(Reduced(p, e)), p.masses)), Rad(p, e)),
            RMul(Volume(p.cme, p.masses), Non(p)))
---------------------------------------------------------------------------
\* Averages over centre-of-mass energies: trapezoids or parabolas through successive triples
\* (an odd interval at the end takes the last parabola)
PolyEC(c, e, x) == RSum(<<c[1], RMul(c[2], e), RMul(c[3], x), RMul(c[4], RMul(e, x)), RMul(c[5], RMul(x, RMul(x, x)))>>)
Trap(xs, ys) == RSum([i \in 1..(Len(xs) - 1) |-> RMul(RSub(xs[i + 1], xs[i]), RDiv(RAdd(ys[i], ys[i + 1]), 2))])
Parabola(x, y, a, b) ==                          \* integral from a to b of the parabola through three points
  LET d1 == RDiv(RSub(y[2], y[1]), RSub(x[2], x[1]))
      d2 == RDiv(RSub(RDiv(RSub(y[3], y[2]), RSub(x[3], x[2])), d1), RSub(x[3], x[1]))
      \* y1 + d1 (t-x1) + d2 (t-x1)(t-x2)
      f(t) == LET u == RSub(t, x[1]) h == RSub(x[2], x[1]) IN
              RSum(<<RMul(y[1], u), RMul(d1, RDiv(Sq(u), 2)), RMul(d2, RSub(RDiv(RMul(u, Sq(u)), 3), RMul(h, RDiv(Sq(u), 2))))>>)
  IN RSub(f(b), f(a))
Simp(xs, ys) ==
  LET n == Len(xs)
      m == IF n % 2 = 1 THEN n ELSE n - 1
      tri(s, i) == <<s[i], s[i + 1], s[i + 2]>>
      body == RSum([j \in 1..((m - 1) \div 2) |-> Parabola(tri(xs, 2 * j - 1), tri(ys, 2 * j - 1), xs[2 * j - 1], xs[2 * j + 1])])
  IN IF n = 2 THEN Trap(xs, ys)
     ELSE IF n % 2 = 1 THEN body ELSE RAdd(body, Parabola(tri(xs, n - 2), tri(ys, n - 2), xs[n - 1], xs[n]))
Average(a, e) ==
  LET ys == [i \in 1..Len(a.cmes) |-> RMul(a.probs[i], RMul(a.scale, PolyEC(a.c, e, a.cmes[i])))]
  IN IF a.method = "trapz" THEN Trap(a.cmes, ys) ELSE Simp(a.cmes, ys)

NoProc == [cme |-> "0", masses |-> <<>>, rad |-> <<>>, non |-> <<>>]
NoAve == [cmes |-> <<>>, probs |-> <<>>, c |-> <<>>, scale |-> "1", method |-> "none", vec |-> "0"]
Init0 == [p |-> NoProc, a |-> NoAve]
Apply(s, o) ==
  CASE o.op = "process" -> [s EXCEPT !.p = [cme |-> o.cme, masses |-> o.masses, rad |-> o.rad, non |-> o.non]]
    [] o.op = "make" -> [s EXCEPT !.a = [cmes |-> o.cmes, probs |-> o.probs, c |-> o.c, scale |-> o.scale, method |-> o.method, vec |-> o.vec]]
    [] OTHER -> s
=============================================================================
