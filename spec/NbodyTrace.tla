----------------------------- MODULE NbodyTrace -----------------------------
EXTENDS Nbody, TraceLib
VARIABLES l, st
Tol(e) == IF Len(st.fs) < 3 THEN "1e-9" ELSE IF e.integrator = "rambo" THEN "1/10" ELSE IF e.integrator \in {"default", "quad"} THEN "1e-4" ELSE "1/200"
Ask(e) ==
  LET t == TLCEval(Tables(st, e.nbins))
      rows == Rows(e.product)
      fsr(x, pick(_, _)) == IF e.product = "photon" /\ e.fsr = "1" THEN Radiation(st, t, x, pick) ELSE "0"
      base(f, j) == RAdd(Decays(st, t, e.comp, f, j), Direct(st, t, rows[f], e.es[j]))
      b == TLCEval([f \in 1..Len(rows) |-> TLCEval([j \in 1..Len(e.es) |-> base(f, j)])])
      scale(j) == RMul(Tol(e), RSum([f \in 1..Len(rows) |-> RAbs(b[f][j])]))
      biggest == FoldLeft(LAMBDA a, i : RMax(a, FoldLeft(RMax, "0", t.p[i])), "0", [i \in 1..Len(t.p) |-> i])
      slack(f, j) == RAdd("1e-13", RMul(Tol(e), RAdd(IF e.integrator = "rambo" THEN RMul(3, biggest) ELSE "0", RAbs(b[f][j]))))
  IN [Rows |-> Len(e.res.rows) = Len(rows) /\ \A f \in 1..Len(rows) : Len(e.res.rows[f]) = Len(e.es),
      Scalar |-> e.res.scalar = (IF e.form = "scalar" THEN "1" ELSE "0"),
      Spectrum |-> \A f \in 1..Len(rows) : \A j \in 1..Len(e.es) :
         LET x == e.es[j]  got == e.res.rows[f][j]
             lo == RAdd(b[f][j], IF e.average = "1" THEN fsr(x, Mean2) ELSE fsr(x, RMin))
             hi == RAdd(b[f][j], IF e.average = "1" THEN fsr(x, Mean2) ELSE fsr(x, RMax))
             d == RAdd(slack(f, j), RMul(Tol(e), RAbs(hi)))
         IN RLeq(RSub(lo, d), got) /\ RLeq(got, RAdd(hi, d))]
Checks(e) ==
  CASE e.op = "final" -> [New |-> TRUE]
    [] e.op = "bad" /\ ~(e.what = "flavor" /\ e.product # "neutrino") ->
         [Refused |-> e.out = "raise" /\ (e.res.error = IF e.what = "integrator" THEN "AssertionError" ELSE "ValueError")]
    [] e.op = "bad" -> [Refused |-> e.out = "raise"]
    [] e.out # "ok" -> [Answers |-> FALSE]
    [] e.op = "count" -> [Photons |-> RClose(e.res, 2 * e.pions, "1/25", 0)]
    [] e.op = "share" ->
         LET n == Len(e.fs)
             one(i) == IF i = e.first THEN FirstMean(n, e.a) ELSE OtherMean(n, e.a)
             of(f) == {i \in 1..n : e.fs[i] = f}
             total(f) == RDiv(RSum([i \in 1..n |-> IF i \in of(f) THEN one(i) ELSE "0"]), 2)
             fl == <<"ve", "vm", "vt">>
         IN [Number |-> \A f \in 1..3 : RClose(e.res.n[f], Cardinality(of(fl[f])), "1/20", 0),
             Energy |-> \A f \in 1..3 : RClose(e.res.energy[f], total(fl[f]), "1/15", 0)]
    [] e.op = "radiate" ->
         [Photons |-> LET v == Radiated(Len(e.fs), e.a, "e", RMul(e.frac, e.cme), e.cme) IN RClose(e.res, v, "1/10", RDiv("1/1000", e.cme))]
    [] OTHER -> Ask(e)
TInit == l = 1 /\ st = Fresh /\ CountInit
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] s2 == ApplyN(st, e) c == Checks(e) IN Report(l, c) /\ Count(c) /\ st' = s2
         /\ l' = l + 1
TraceAccepted == Accepted(Len(Trace))
=============================================================================
