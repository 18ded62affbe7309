---------------------------- MODULE BoostTrace -----------------------------
EXTENDS Boost, TraceLib
VARIABLES l, st
Near(r, v, tol) == RClose(r, v, tol, "1e-250")
\* an energy on an edge of a box may fall either side
Edge(e, s, b) == RClose(e, Lo(s.e0, s.m, b), "1e-9", 0) \/ RClose(e, Hi(s.e0, s.m, b), "1e-9", 0)
Biggest(r) == FoldLeft(LAMBDA a, x : RMax(a, RAbs(x)), "0", r)
Func(s, e) ==
  LET c == IF REq(e.scale, 0) THEN s.c ELSE Scale(s.c, e.scale)
      want(x) == CASE ~Physical(e.b) -> "0" [] REq(e.b, 0) -> PolyAt(c, x)
                   [] e.method \in {"quad", "quadrature"} -> PolyBoost(c, s.m, e.b, x)
                   [] e.method = "simps" /\ e.npts % 2 = 0 -> PolyBoost(c, s.m, e.b, x)
                   [] OTHER -> Rule(e.method, c, s.m, e.b, x, IF e.npts = 0 THEN 100 ELSE e.npts)
      tol == CASE e.method \in {"quad", "quadrature"} -> "1e-6" [] e.method = "simps" /\ e.npts = 4 -> "1" [] e.method = "simps" /\ e.npts = 0 -> "1/50" [] OTHER -> "1e-9"
      \* an even number of points is corrected at the ends: as good as the rule itself
      slack(x) == CASE ~Physical(e.b) \/ REq(e.b, 0) -> "0"
                    [] e.method = "simps" /\ e.npts = 0 -> RAdd("1e-12", RMul(3, RAbs(RSub(Rule("simps", c, s.m, e.b, x, 99), PolyBoost(c, s.m, e.b, x)))))
                    [] OTHER -> "1e-12"
  IN Len(e.res) = Len(e.es) /\ \A i \in DOMAIN e.es : RClose(e.res[i], want(e.es[i]), tol, slack(e.es[i]))
Checks(e) ==
  CASE e.op \in {"line", "poly", "table"} -> [New |-> TRUE]
    [] e.op = "func" /\ e.method = "bogus" -> [UnknownMethodRefused |-> e.out = "raise" /\ e.res.error = "ValueError"]
    [] e.out # "ok" -> [Answers |-> FALSE]
    [] e.op = "delta" ->
         [Box |-> Len(e.res) = Len(e.es) /\ \A i \in DOMAIN e.es :
            (RLt(0, e.b) /\ RLt(e.b, 1) /\ Edge(e.es[i], st, e.b)) \/ Near(e.res[i], LineBoost(st.e0, st.m, e.b, e.es[i]), "1e-9"),
          Shaped |-> e.scalar = (IF e.form = "scalar" THEN "1" ELSE "0")]
    [] e.op = "double" ->
         [Twice |-> Len(e.res) = Len(e.es) /\ \A i \in DOMAIN e.es :
            RClose(e.res[i], LineTwice(st.e0, st.m, e.b1, e.b2, e.es[i]), "1e-6", RMul("1e-7", RDiv(Height(st.e0, st.m, e.b1), RMul(Gamma(e.b2), e.b2)))),
          Shaped |-> e.scalar = (IF e.form = "scalar" THEN "1" ELSE "0")]
    [] e.op = "array" ->
         [Table |-> Len(e.res) = Len(st.t.es) /\ \A i \in DOMAIN e.res :
            RClose(e.res[i], TableBoost(st.t, st.m, e.b, i), "1e-8", RMul("1e-11", Biggest(e.res)))]
    [] OTHER -> [Function |-> Func(st, e)]
TInit == l = 1 /\ st = None /\ CountInit
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] s2 == Apply(st, e) c == Checks(e) IN Report(l, c) /\ Count(c) /\ st' = s2
         /\ l' = l + 1
TraceAccepted == Accepted(Len(Trace))
=============================================================================
