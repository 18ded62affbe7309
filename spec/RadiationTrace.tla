-------------------------- MODULE RadiationTrace ---------------------------
EXTENDS Radiation, TraceLib
VARIABLES l, st
AllOf(r, n, P(_)) == Len(r) = n /\ \A i \in 1..n : P(i)
MonteCarlo(e) == e.method = "rambo" \/ Len(st.p.masses) > 2
Errors == [below |-> "RamboCMETooSmall", threshold |-> "RamboCMETooSmall"]
Checks(e) ==
  CASE e.op \in {"process", "make"} -> [New |-> TRUE]
    [] e.op = "bad" -> [Refused |-> e.out = "raise" /\ e.res.error = (IF e.what \in DOMAIN Errors THEN Errors[e.what] ELSE "ValueError")]
    [] e.out # "ok" -> [Answers |-> FALSE]
    [] e.op = "ap" ->
         [Splitting |-> AllOf(e.res, Len(e.xs), LAMBDA i :
            RClose(e.res[i], IF e.of = "x" THEN ApX(e.kind, e.xs[i], e.s, e.m, e.q) ELSE ApE(e.kind, e.xs[i], e.s, e.m, e.q), "1e-6", 0))]
    [] e.op = "average" -> [Average |-> AllOf(e.res, Len(e.es), LAMBDA i : RClose(e.res[i], Average(st.a, e.es[i]), "1e-9", "1e-6"))]
    [] e.op = "pulls" ->
         LET want == Fsr(st.p, e.e)  n == Len(e.res.dnde)
             \* nothing to say where every sample agrees, or where a few collinear samples decide
             exact == (\A i \in 1..n : RClose(e.res.dnde[i], want, "1e-5", 0))
                      \/ ((\A i \in 1..n : RClose(e.res.dnde[i], want, "1", 0)) /\ RLt(RDiv(want, 20), RDiv(RSum(e.res.error), n)))
             pull == [i \in 1..n |-> RRound(RDiv(RSub(e.res.dnde[i], want), e.res.error[i]))]
         IN [ErrorsHonest |-> exact \/ LET q == RDiv(RSum([i \in 1..n |-> Sq(pull[i])]), n) IN RLt(q, "9/4") /\ RLt("2/5", q),
             Unbiased |-> exact \/ RLt(RAbs(RDiv(RSum(pull), n)), "2/3"),
             SeedsDiffer |-> exact \/ REq(e.res.distinct, e.times)]
    [] OTHER ->
         [Spectrum |-> AllOf(e.res.dnde, Len(e.es), LAMBDA i :
            RLeq(RAbs(RSub(e.res.dnde[i], Fsr(st.p, e.es[i]))),
                 RAdd(RMul(IF MonteCarlo(e) THEN 7 ELSE 1, e.res.error[i]), RMul("1e-7", Fsr(st.p, e.es[i]))))),
          Errors |-> AllOf(e.res.error, Len(e.es), LAMBDA i :
            RLeq(0, e.res.error[i]) /\ RLeq(e.res.error[i], RMul(IF MonteCarlo(e) THEN "1/5" ELSE "1e-6", e.res.dnde[i]))),
          Shaped |-> e.res.scalar = (IF e.form = "scalar" THEN "1" ELSE "0"),
          Repeatable |-> REq(e.res.again, 1), CommonFactorCancels |-> REq(e.res.cancels, 1)]
TInit == l = 1 /\ st = Init0 /\ CountInit
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] s2 == Apply(st, e) c == Checks(e) IN Report(l, c) /\ Count(c) /\ st' = s2
         /\ l' = l + 1
TraceAccepted == Accepted(Len(Trace))
=============================================================================
