------------------------------- MODULE Boost -------------------------------
(***************************************************************************)
(* Spectra of a product seen from a moving source.  A source emitting      *)
(* isotropically at rest and moving with velocity beta sends into the      *)
(* laboratory energy E what it emitted between g(E-bk) and g(E+bk):        *)
(*    dN/dE = 1/(2 g b) * Integral dE'/k' dN/dE'.                          *)
(* The state is the spectrum in hand: a line, a polynomial or a table.     *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, SequencesExt, TLC

Gamma(b) == RDiv(1, RSqrt(RSub(1, RMul(b, b))))
Mom(e, m) == RSqrt(RSub(RMul(e, e), RMul(m, m)))
Shift(e, m, b, sign) == RMul(Gamma(b), RAdd(e, RMul(RMul(sign, b), Mom(e, m))))
Physical(b) == RLeq(0, b) /\ RLt(b, 1)

\* Integrals of E^j/k over [a,b]
Prim(j, m, e) ==
  LET k == Mom(e, m) IN
  CASE j = 0 -> RLn(RAdd(e, k))
    [] j = 1 -> k
    [] OTHER -> RDiv(RAdd(RMul(e, k), RMul(RMul(m, m), RLn(RAdd(e, k)))), 2)
\* Polynomial (coefficients of 1, E, E^2) cut to [lo, hi], seen at e from a source moving with b
Window(c, m, b, e, lo, hi) ==
  LET x == RMax(Shift(e, m, b, -1), lo)
      y == RMin(Shift(e, m, b, 1), hi)
  IN IF RLeq(e, m) \/ RLeq(y, x) THEN "0"
     ELSE RDiv(RSum([j \in 1..Len(c) |-> RMul(c[j], RSub(Prim(j - 1, m, y), Prim(j - 1, m, x)))]), RMul(2, RMul(Gamma(b), b)))
PolyAt(c, e) == RSum([j \in 1..Len(c) |-> RMul(c[j], RPow(e, j - 1))])
Far == "1e30"
PolyBoost(c, m, b, e) ==
  CASE ~Physical(b) -> "0" [] REq(b, 0) -> PolyAt(c, e) [] OTHER -> Window(c, m, b, e, m, Far)

\* A line at e0: a box, and after a second boost a trapezoid in log k
Lo(e0, m, b) == Shift(e0, m, b, -1)
Hi(e0, m, b) == Shift(e0, m, b, 1)
Height(e0, m, b) == RDiv(1, RMul(2, RMul(RMul(Gamma(b), b), Mom(e0, m))))
LineBoost(e0, m, b, e) ==
  IF RLt(0, b) /\ RLt(b, 1) /\ RLt(Lo(e0, m, b), e) /\ RLt(e, Hi(e0, m, b)) THEN Height(e0, m, b) ELSE "0"
LineTwice(e0, m, b1, b2, e) == Window(<<Height(e0, m, b1)>>, m, b2, e, Lo(e0, m, b1), Hi(e0, m, b1))

\* A table: dN/dE over k, linear between the rows above the mass, nothing outside them
Rows(t, m) == LET ok == SelectSeq([i \in 1..Len(t.es) |-> i], LAMBDA i : RLt(m, t.es[i]))
              IN [i \in 1..Len(ok) |-> [e |-> t.es[ok[i]], g |-> RDiv(t.ys[ok[i]], Mom(t.es[ok[i]], m))]]
SegArea(p, q, a, b) ==                            \* integral of the line p..q over its overlap with [a, b]
  LET x == RMax(p.e, a) y == RMin(q.e, b)
      at(z) == RAdd(p.g, RMul(RSub(q.g, p.g), RDiv(RSub(z, p.e), RSub(q.e, p.e))))
  IN IF RLeq(y, x) THEN "0" ELSE RMul(RSub(y, x), RDiv(RAdd(at(x), at(y)), 2))
TableBoost(t, m, b, i) ==                         \* at the i-th energy of the table
  CASE ~Physical(b) -> "0" [] REq(b, 0) -> t.ys[i]
    [] RLeq(t.es[i], m) -> "0"
    [] OTHER ->
         LET r == Rows(t, m) x == Shift(t.es[i], m, b, -1) y == Shift(t.es[i], m, b, 1)
         IN RDiv(RSum([j \in 1..(Len(r) - 1) |-> SegArea(r[j], r[j + 1], x, y)]), RMul(2, RMul(Gamma(b), b)))

\* The rules of n equally spaced points ("trapz", and "simps" for odd n)
Rule(method, c, m, b, e, n) ==
  LET x == Shift(e, m, b, -1) y == Shift(e, m, b, 1)
      h == RDiv(RSub(y, x), n - 1)
      f(i) == LET z == RAdd(x, RMul(h, i)) IN RDiv(PolyAt(c, z), Mom(z, m))
      w(i) == IF method = "trapz" THEN (IF i \in {0, n - 1} THEN "1/2" ELSE "1")
              ELSE IF i \in {0, n - 1} THEN "1/3" ELSE IF i % 2 = 1 THEN "4/3" ELSE "2/3"
  IN IF RLeq(e, m) THEN "0" ELSE RDiv(RMul(h, RSum([i \in 1..n |-> RMul(w(i - 1), f(i - 1))])), RMul(2, RMul(Gamma(b), b)))

Scale(c, a) == [j \in 1..Len(c) |-> RMul(a, c[j])]
None == [kind |-> "none", m |-> "0", e0 |-> "0", c |-> <<>>, t |-> [es |-> <<>>, ys |-> <<>>]]
Apply(s, o) ==
  CASE o.op = "line" -> [None EXCEPT !.kind = "line", !.m = o.m, !.e0 = o.e0]
    [] o.op = "poly" -> [None EXCEPT !.kind = "poly", !.m = o.m, !.c = o.c]
    [] o.op = "table" -> [None EXCEPT !.kind = "table", !.m = o.m, !.t = [es |-> o.es, ys |-> o.ys]]
    [] OTHER -> s
=============================================================================
