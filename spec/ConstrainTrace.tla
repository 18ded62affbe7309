--------------------------- MODULE ConstrainTrace ---------------------------
EXTENDS Constrain, TraceLib
VARIABLES l, st
Near(x, y) == RClose(x, y, "2e-3", "0")
\* `direct` is what each model itself reports for that survey (decided by Limits and Instruments)
Good(c, res, direct) ==
  Len(res) = Len(st.models) /\
  \A i \in 1..Len(st.models) :
    IF c.name = "cmb" THEN REq(Both(st.models[i], c.xkd), 0) \/ Near(res[i], CmbOf(st.models[i], c))
    ELSE RClose(res[i], direct[i], "1e-9", "0") \/ (direct[i] = "nan" /\ res[i] = "nan")
RelicGood(e, i) ==
  LET m == e.models[i]  r == e.res.r[i]  d == e.res.d[i] IN
  IF RLt(RMul(RSub(d.lo, OmegaCdm), RSub(d.hi, OmegaCdm)), 0)
  THEN RClose(d.omega, OmegaCdm, "1e-3", "0") /\ RClose(r, RelicBound(m, d.g, e.vx), "1e-3", "0")
       /\ RLeq(e.lo, RMul(d.g, "1.0000001")) /\ RLeq(RMul(d.g, "0.9999999"), e.hi)
  ELSE r = "nan"
Checks(e) ==
  IF e.op \in {"new", "set", "composite", "add", "reset"} THEN [Accepted |-> e.out = "ok"]
  ELSE IF e.out # "ok" THEN [Answers |-> FALSE]
  ELSE [Answers |-> TRUE, ModelsKept |-> e.same = "1"] @@
   CASE e.op = "single" -> [OneBoundPerModel |-> Good(e.c, e.res, e.direct)]
     [] e.op = "compose" -> LET cs == st.comps[e.i] IN
          [MembersAnswer |-> DOMAIN e.res = NamesOf(cs),
           BoundsByName |-> \A n \in NamesOf(cs) \cap DOMAIN e.res : Good(Member(cs, n), e.res[n], e.direct[n]),
           Size |-> e.len = Len(cs)]
     [] e.op = "relic" -> [ObservedDensity |-> Len(e.res.r) = Len(e.models) /\ \A i \in 1..Len(e.models) : RelicGood(e, i)]
TInit == l = 1 /\ st = State0 /\ CountInit
TNext == /\ l <= Len(Trace)
         /\ LET c == Checks(Trace[l]) IN Report(l, c) /\ Count(c)
         /\ st' = Apply2(st, Trace[l])
         /\ l' = l + 1
TraceAccepted == Accepted(Len(Trace))
=============================================================================
