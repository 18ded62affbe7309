-------------------------------- MODULE Cmb --------------------------------
(***************************************************************************)
(* The CMB bound on an annihilating Theory model: how efficiently its      *)
(* photons and its electrons and positrons ionise the plasma around        *)
(* recombination, and the cross section that this allows.                  *)
(***************************************************************************)
EXTENDS Theory, Json, IOUtils

\* published efficiency tables (arXiv:1506.03811), piecewise linear; energies in MeV
Raw == JsonDeserialize(IOEnv.FEFF)
TabE == [p \in {"g", "p"} |-> [k \in 1..Len(Raw[p].e) |-> RDiv(Raw[p].e[k], 1000000)]]
TabF == [p \in {"g", "p"} |-> Raw[p].f]
NTab(p) == Len(TabE[p])

SegSlope == [p \in {"g", "p"} |-> [k \in 1..(Len(Raw[p].e) - 1) |->
               RDiv(RSub(TabF[p][k + 1], TabF[p][k]), RSub(TabE[p][k + 1], TabE[p][k]))]]
Feff(p, e) ==
  LET k == CHOOSE j \in 1..(NTab(p) - 1) : RLeq(TabE[p][j], e) /\ RLeq(e, TabE[p][j + 1])
  IN  RAdd(TabF[p][k], RMul(SegSlope[p][k], RSub(e, TabE[p][k])))

TCmb == "0.235e-6"
Vx(mx, xkd) == RMul(RDiv(RMul(2000, TCmb), mx), RSqrt(RDiv("1e-4", xkd)))
EcmCmb(st, xkd) == RMul(RMul(2, st.mx), RAdd(1, RDiv(RPow(Vx(st.mx, xkd), 2), 2)))

\* the integral of (A e + B e^2) (f0 + s (e - e0)) over one segment
SegInt(A, B, f0, s, e0, lo, hi) ==
  LET c == RSub(f0, RMul(s, e0))
      d(n) == RDiv(RSub(RPow(hi, n), RPow(lo, n)), n)
  IN  RSum(<<RMul(RMul(A, c), d(2)), RMul(RAdd(RMul(A, s), RMul(B, c)), d(3)), RMul(RMul(B, s), d(4))>>)

\* a pair of electrons or of photons deposits twice; the positron spectrum stands for both charges
Continuum(st, p, xkd) ==
  LET ecm == EcmCmb(st, xkd)  top == RDiv(ecm, 2)  m == IF p = "p" THEN 2 ELSE 1
      A == TotalDnde(st, p, 0, ecm)   B == RSub(TotalDnde(st, p, 1, ecm), A)
  IN  RDiv(RMul(m, RSum([k \in 1..(NTab(p) - 1) |->
          IF RLeq(top, TabE[p][k]) THEN "0"
          ELSE SegInt(A, B, TabF[p][k], SegSlope[p][k], TabE[p][k], TabE[p][k], RMin(top, TabE[p][k + 1]))])), ecm)
PairChan(p) == IF p = "g" THEN "g g" ELSE "e e"
LineShare(st, p, c, ecm) ==
  LET e == LineEnergy(st, p, c, ecm) IN
  IF ~RLt(TabE[p][1], e) THEN "0"
  ELSE RDiv(RMul(RMul(e, Bf(st, Idx(st, c), ecm)), RMul(Feff(p, e), IF c = PairChan(p) THEN 2 ELSE 1)), ecm)
LineSum(st, p, xkd) ==
  LET ecm == EcmCmb(st, xkd) IN
  RSum([i \in 1..N(st) |-> IF st.ch[i] \in LineChan(st, p) THEN LineShare(st, p, st.ch[i], ecm) ELSE "0"])

Efficiency(st, p, xkd) == RAdd(Continuum(st, p, xkd), LineSum(st, p, xkd))
Both(st, xkd) == RAdd(Efficiency(st, "g", xkd), Efficiency(st, "p", xkd))
CmbLimit(st, xkd, pann) == RDiv(RMul(pann, st.mx), Both(st, xkd))
=============================================================================
