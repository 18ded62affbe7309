----------------------------- MODULE PhaseSpace -----------------------------
(***************************************************************************)
(* Phase space of n final-state particles: which points are physical, what *)
(* a weighted sample must integrate to, exact (or high-precision) volumes  *)
(* of two-, three- and four-body phase space with polynomial squared       *)
(* matrix elements, and the distributions derived from them.               *)
(*                                                                         *)
(* An integrator is a record [cls, cme, masses, me]; the squared matrix    *)
(* element me = <<a, b, c>> is a + b z + c z^2 (two bodies, z the cosine   *)
(* of particle 1), a + b s + c t (three bodies, s = (p2+p3)^2 and          *)
(* t = (p1+p3)^2) and a + b (p1+p2)^2 otherwise.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rat

Sq(x) == RMul(x, x)
Kallen(a, b, c) == RSub(RSum(<<Sq(a), Sq(b), Sq(c)>>), RMul(2, RSum(<<RMul(a, b), RMul(a, c), RMul(b, c)>>)))
Mom(q, m1, m2) == RDiv(RSqrt(Kallen(Sq(q), Sq(m1), Sq(m2))), RMul(2, q))
XsPrefactor(m1, m2, q) == RDiv(1, RMul(4, RMul(Mom(q, m1, m2), q)))
Ms(st) == RSum(st.masses)
NB(st) == Len(st.masses)
IsOpen(st) == RLt(Ms(st), st.cme)
Massless(st) == \A i \in 1..NB(st) : REq(st.masses[i], 0)

RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)

-----------------------------------------------------------------------------
\* points: p[i] = <<E, x, y, z>>
Comp(p, k) == RSum([i \in 1..Len(p) |-> p[i][k]])
Mod2(v) == RSum(<<Sq(v[2]), Sq(v[3]), Sq(v[4])>>)
Lnorm(v) == RSub(Sq(v[1]), Mod2(v))
Plus(v, w) == [k \in 1..4 |-> RAdd(v[k], w[k])]
Mdot(v, w) == RSub(RMul(v[1], w[1]), RSum([k \in 2..4 |-> RMul(v[k], w[k])]))
Small(x, tol) == RLeq(RAbs(x), tol)
Conserved(st, p, rel) == /\ Small(RSub(Comp(p, 1), st.cme), RMul(rel, st.cme))
                         /\ \A k \in 2..4 : Small(Comp(p, k), RMul(rel, st.cme))
OnShell(st, p, rel) == \A i \in 1..NB(st) : Small(RSub(Lnorm(p[i]), Sq(st.masses[i])), RMul(rel, Sq(st.cme)))

\* the squared matrix element at a point
MeAt(st, p) ==
  IF NB(st) = 3 THEN RSum(<<st.me[1], RMul(st.me[2], Lnorm(Plus(p[2], p[3]))), RMul(st.me[3], Lnorm(Plus(p[1], p[3])))>>)
  ELSE RAdd(st.me[1], RMul(st.me[2], Lnorm(Plus(p[1], p[2]))))

\* volume of massless phase space, and the weight that makes a massive sample uniform in phase space
MasslessVolume(n, q) ==
  RDiv(RMul(RPow(RDiv(RPi, 2), n - 1), RMul(RPow(q, 2 * n - 4), RPow(RDiv(1, RMul(2, RPi)), 3 * n - 4))),
       (n - 1) * Fact(n - 2) * Fact(n - 2))
RECURSIVE RProd(_)
RProd(s) == IF s = <<>> THEN "1" ELSE RMul(Head(s), RProd(Tail(s)))
Weight(st, p) ==
  LET n == NB(st)
      k == [i \in 1..n |-> RSqrt(Mod2(p[i]))]
      t1 == RPow(RDiv(RSum(k), st.cme), 2 * n - 3)
      t2 == RSum([i \in 1..n |-> RDiv(Sq(k[i]), p[i][1])])
      t3 == RProd([i \in 1..n |-> RDiv(k[i], p[i][1])])
  IN  RMul(RMul(RMul(RDiv(t1, t2), t3), st.cme), RMul(MasslessVolume(n, st.cme), MeAt(st, p)))

Mean(ws) == RDiv(RSum(ws), Len(ws))
StdErr(ws) == LET m == Mean(ws) IN
  RSqrt(RDiv(RSum([i \in 1..Len(ws) |-> Sq(RSub(ws[i], m))]), RMul(Len(ws) - 1, Len(ws))))

-----------------------------------------------------------------------------
\* integrals.  x = lo + (hi-lo)(3u^2-2u^3) removes the square-root end points; Gauss-Legendre in u
GLX == <<"0.003435700407452537606938807", "0.01801403636104310436616693", "0.04388278587433704706612378", "0.08044151408889058830273547", "0.1268340467699246036928475", "0.1819731596367424872735817", "0.2445664990245864509978180", "0.3131469556422902196637259", "0.3861070744291774609597519", "0.4617367394332513331226798", "0.5382632605667486668773202", "0.6138929255708225390402481", "0.6868530443577097803362741", "0.7554335009754135490021820", "0.8180268403632575127264183", "0.8731659532300753963071525", "0.9195584859111094116972645", "0.9561172141256629529338762", "0.9819859636389568956338331", "0.9965642995925474623930612">>
GLW == <<"0.008807003569576059155930981", "0.02030071490019347066551998", "0.03133602416705453178475327", "0.04163837078835237436237907", "0.05096505990862021751837507", "0.05909726598075920865618869", "0.06584431922458831344924725", "0.07104805465919102566464916", "0.07458649323630187339391437", "0.07637669356536292534904217", "0.07637669356536292534904217", "0.07458649323630187339391437", "0.07104805465919102566464916", "0.06584431922458831344924725", "0.05909726598075920865618869", "0.05096505990862021751837507", "0.04163837078835237436237907", "0.03133602416705453178475327", "0.02030071490019347066551998", "0.008807003569576059155930981">>
QU == [k \in 1..20 |-> RSub(RMul(3, Sq(GLX[k])), RMul(2, RPow(GLX[k], 3)))]
QW == [k \in 1..20 |-> RMul(GLW[k], RMul(6, RMul(GLX[k], RSub(1, GLX[k]))))]
Quad(F(_), lo, hi) ==
  LET d == RSub(hi, lo) IN RRound(RMul(d, RSum([k \in 1..20 |-> RRound(RMul(QW[k], F(RRound(RAdd(lo, RMul(d, QU[k]))))))])))

TwoBodyVolume(q, m1, m2) == RDiv(Mom(q, m1, m2), RMul(RMul(4, RPi), q))
TwoBodyIntegral(st) ==     \* p/(8 pi q) int dz
  LET m == st.masses IN RMul(RDiv(Mom(st.cme, m[1], m[2]), RMul(RMul(8, RPi), st.cme)),
                             RAdd(RMul(2, st.me[1]), RMul("2/3", st.me[3])))

\* for fixed s = (p_j+p_k)^2, t = (p_i+p_k)^2 runs over TMid -+ THalf
THalf(s, q, m) == RRound(RDiv(RSqrt(RMul(Kallen(s, Sq(q), Sq(m[1])), Kallen(s, Sq(m[2]), Sq(m[3])))), RMul(2, s)))
TMid(s, q, m) == RSum(<<Sq(m[1]), Sq(m[3]),
  RDiv(RMul(RSub(RSub(Sq(q), s), Sq(m[1])), RSub(RAdd(s, Sq(m[3])), Sq(m[2]))), RMul(2, s))>>)
\* int dt (a + b s + c t) at fixed s
Slice(s, q, m, me) == LET h == THalf(s, q, m) IN
  RRound(RMul(RMul(2, h), RSum(<<me[1], RMul(me[2], s), RMul(me[3], TMid(s, q, m))>>)))
ThreeBodyOf(q, m, me) ==
  IF ~RLt(RSum(m), q) THEN "0"
  ELSE RDiv(Quad(LAMBDA w : IF REq(w, 0) THEN "0" ELSE RMul(RMul(2, w), Slice(Sq(w), q, m, me)), RAdd(m[2], m[3]), RSub(q, m[1])),
            RMul(128, RMul(RPow(RPi, 3), Sq(q))))
FourBodyVolume(q, m) ==
  RDiv(Quad(LAMBDA w : RMul(RMul(2, w), RMul(TwoBodyVolume(q, m[1], w), ThreeBodyOf(w, SubSeq(m, 2, 4), <<"1", "0", "0">>))),
            RSum(SubSeq(m, 2, 4)), RSub(q, m[1])), RMul(2, RPi))
Volume(st) ==
  LET n == NB(st)  q == st.cme  m == st.masses IN
  CASE ~IsOpen(st) -> "0"
    [] Massless(st) -> MasslessVolume(n, q)
    [] n = 2 -> TwoBodyVolume(q, m[1], m[2])
    [] n = 3 -> ThreeBodyOf(q, m, <<"1", "0", "0">>)
    [] n = 4 -> FourBodyVolume(q, m)
Flat(st) == REq(st.me[2], 0) /\ REq(st.me[3], 0)
Integral(st) ==
  IF ~IsOpen(st) THEN "0"
  ELSE IF st.cls = "two" THEN TwoBodyIntegral(st)
  ELSE IF NB(st) = 3 THEN ThreeBodyOf(st.cme, st.masses, st.me)
  ELSE RMul(Volume(st), st.me[1])

-----------------------------------------------------------------------------
\* distributions
ELo(st, i) == st.masses[i]
EHi(st, i) == RDiv(RSub(RAdd(Sq(st.cme), Sq(st.masses[i])), Sq(RSub(Ms(st), st.masses[i]))), RMul(2, st.cme))
MLo(st, i, j) == RAdd(st.masses[i], st.masses[j])
MHi(st, i, j) == RSub(st.cme, RSub(Ms(st), MLo(st, i, j)))
Edge(lo, hi, n, k) == RAdd(lo, RMul(RDiv(k, n), RSub(hi, lo)))
Centre(lo, hi, n, k) == Edge(lo, hi, 2 * n, 2 * k - 1)          \* of bin k
Normalised(heights, xs) ==
  LET ys == TLCEval(heights)
      tot == RRound(RSum([k \in 1..Len(ys) |-> RMul(ys[k], RSub(xs[k + 1], xs[k]))]))
  IN  IF RLt(0, tot) THEN TLCEval([k \in 1..Len(ys) |-> RRound(RDiv(ys[k], tot))]) ELSE ys

\* three bodies, particle i against the other two: the density of its energy, not normalised.
\* The element is rewritten for the axes in which i comes first.
Perm(i) == CASE i = 1 -> <<1, 2, 3>> [] i = 2 -> <<2, 1, 3>> [] i = 3 -> <<3, 2, 1>>
PMe(st, i) == LET a == st.me[1]  b == st.me[2]  c == st.me[3]
                  tot == RAdd(Sq(st.cme), RSum([k \in 1..3 |-> Sq(st.masses[k])])) IN   \* s + t + u
  CASE i = 1 -> <<a, b, c>>              \* s23, t13
    [] i = 2 -> <<a, c, b>>              \* s13, t23
    [] i = 3 -> <<RAdd(a, RMul(b, tot)), RNeg(b), RSub(c, b)>>   \* s12, t13: s23 = tot - s12 - s13
EnergyDensity(st, i, e) ==
  LET m == [k \in 1..3 |-> st.masses[Perm(i)[k]]]
      s == RSub(RAdd(Sq(st.cme), Sq(m[1])), RMul(2, RMul(st.cme, e)))
  IN  Slice(s, st.cme, m, PMe(st, i))
MassDensity(st, i, w) ==   \* of the invariant mass w of the two others
  LET m == [k \in 1..3 |-> st.masses[Perm(i)[k]]] IN RMul(w, Slice(Sq(w), st.cme, m, PMe(st, i)))
DensityBins(F(_), lo, hi, n) ==
  Normalised([k \in 1..n |-> F(Centre(lo, hi, n, k))], [k \in 1..(n + 1) |-> Edge(lo, hi, n, k - 1)])

\* a histogram of weighted values: bin k holds edges k <= x < k+1, the last one closed
Histogram(xs, ws, lo, hi, n) ==
  LET vs == TLCEval(xs)  edge == TLCEval([k \in 0..n |-> Edge(lo, hi, n, k)]) IN
  TLCEval([k \in 1..n |-> RSum([i \in 1..Len(vs) |->
      IF /\ RLeq(edge[k - 1], vs[i]) /\ (RLt(vs[i], edge[k]) \/ (k = n /\ RLeq(vs[i], hi)))
      THEN ws[i] ELSE "0"])])

-----------------------------------------------------------------------------
\* a one-dimensional distribution as its users see it: edges xs, heights ys (normalised on creation)
Centres(xs) == [k \in 1..(Len(xs) - 1) |-> RDiv(RAdd(xs[k], xs[k + 1]), 2)]
DistAt(xs, ps, x) ==
  LET c == Centres(xs)  n == Len(c) IN
  IF RLt(x, c[1]) \/ RLt(c[n], x) THEN "0"
  ELSE IF REq(x, c[n]) THEN ps[n]
  ELSE LET k == CHOOSE k \in 1..(n - 1) : RLeq(c[k], x) /\ RLt(x, c[k + 1])
       IN  RAdd(ps[k], RMul(RDiv(RSub(x, c[k]), RSub(c[k + 1], c[k])), RSub(ps[k + 1], ps[k])))
Poly(f, x) == RSum([j \in 1..Len(f) |-> RMul(f[j], RPow(x, j - 1))])
ExpectTrapz(xs, ps, f) ==
  LET c == Centres(xs)  g == [k \in 1..Len(c) |-> RMul(ps[k], Poly(f, c[k]))]
  IN  RSum([k \in 1..(Len(c) - 1) |-> RMul(RDiv(RAdd(g[k], g[k + 1]), 2), RSub(c[k + 1], c[k]))])
ExpectSimps(xs, ps, f) ==   \* equal bins, an odd number of them
  LET c == Centres(xs)  n == Len(c) IN
  RMul(RDiv(RSub(c[2], c[1]), 3),
       RSum([k \in 1..n |-> RMul(IF k \in {1, n} THEN 1 ELSE IF k % 2 = 0 THEN 4 ELSE 2, RMul(ps[k], Poly(f, c[k])))]))
ExpectQuad(xs, ps, f) ==    \* exact for cubics: Simpson on every piece of the interpolant
  LET c == Centres(xs)
      G(x, p) == RMul(p, Poly(f, x))
  IN  RSum([k \in 1..(Len(c) - 1) |-> RMul(RDiv(RSub(c[k + 1], c[k]), 6),
        RSum(<<G(c[k], ps[k]), RMul(4, G(RDiv(RAdd(c[k], c[k + 1]), 2), RDiv(RAdd(ps[k], ps[k + 1]), 2))), G(c[k + 1], ps[k + 1])>>))])

-----------------------------------------------------------------------------
Apply(st, o) ==
  CASE o.op = "new" -> o.st
    [] o.op = "cme" -> [st EXCEPT !.cme = o.x]
    [] o.op = "masses" -> [st EXCEPT !.masses = o.x]
    [] o.op = "me" -> [st EXCEPT !.me = o.x]
    [] OTHER -> st
=============================================================================
