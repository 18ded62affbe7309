------------------------------ MODULE RelicGen ------------------------------
EXTENDS Relic
CONSTANTS Mode, Depth, Ops
VARIABLES st, hist
Masses == {"1/2", "10", "250", "1000", "20000"}
Sigmas == {"1e-15", "3e-14"}
Models == {[mx |-> m, kind |-> k, a |-> a, p |-> p] : m \in Masses, k \in {"tcs", "xs"}, a \in Sigmas, p \in {0, 1}}
Temps == {"1/100", "3/10", "7", "55", "160", "900", "12000", "3e8"}
Queries(s) == {o \in
  [op : {"dof"}, T : Temps] \cup [op : {"node"}, k : {1, 2, 60, 100, 150, 200, 274}]
  \cup [op : {"neq"}, T : {"2", "40", "300"}, m : {"0", "1", "100", "700"}, g : {"1", "2", "4"}, fermion : BOOLEAN]
  \cup [op : {"tcs"}, x : {"1", "3", "12", "20", "24", "26", "40", "120", "299", "301"}]
  \cup [op : {"boltz"}, x : {"1", "5", "20", "28", "60"}, w : {"-10", "-25", "-40"}]
  \cup [op : {"rd"}, semi : {TRUE}, delta : {"none", "1/2", "3"}, x0 : {"1"}, xf : {"none"}]
  \cup [op : {"rd"}, semi : {FALSE}, delta : {"none"}, x0 : {"1", "5"}, xf : {"none", "60", "400"}] :
  o.op \in Ops /\ (o.op = "rd" /\ ~o.semi => s.kind = "tcs" /\ RLeq(10, s.mx))
  /\ (o.op = "rd" => RLeq(10, s.mx))}
Sets == [op : {"mx"}, x : {"10", "250", "1000", "3000"}] \cup [op : {"a"}, x : {"1e-15", "5e-15", "4e-14"}]
Init == st = [kind |-> "none"] /\ hist = <<>>
\* every kind of query is equally likely
OfKind(S) == LET k == RandomElement({o.op : o \in S}) IN RandomElement({o \in S : o.op = k})
Pick(s) == LET q == Queries(s) IN IF RandomElement(1..4) = 1 \/ q = {} THEN RandomElement(Sets) ELSE OfKind(q)
Next ==
  IF Mode = "laws" THEN st.kind = "none" /\ st' \in Models /\ UNCHANGED hist
  ELSE \/ hist = <<>> /\ \E s \in {RandomElement(Models)} : st' = s /\ hist' = <<[op |-> "new", st |-> s]>>
       \/ Len(hist) > 0 /\ Len(hist) < Depth /\ \E o \in {Pick(st)} : st' = Apply(st, o) /\ hist' = Append(hist, o)
       \/ Len(hist) = Depth /\ PrintT("B " \o ToJson(hist)) /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED st

-----------------------------------------------------------------------------
Real == st.kind # "none"
\* a derivative is the limit of differences
DerivIsSlope == Real => \A f \in BOOLEAN : \A T \in {"40", "300"} :
  RClose(RDiv(RSub(Neq(RAdd(T, "1e-4"), st.mx, 2, f), Neq(RSub(T, "1e-4"), st.mx, 2, f)), "2e-4"), NeqDeriv(T, st.mx, 2, f), "1e-6", 0)
BosonsOutnumber == Real => RLt(Neq(100, st.mx, 2, TRUE), Neq(100, st.mx, 2, FALSE))
\* heavy particles are Boltzmann suppressed, light ones relativistic
Relativistic == Real => RClose(Neq("1e5", "1", 1, FALSE), Neq("1e5", "0", 1, FALSE), "1/10", 0)
\* at low temperature an s-wave cross section sigma v -> its threshold value times the velocity
SlowerWhenColder == Real /\ st.kind = "xs" => RLt(ThermalOf(st, 60), ThermalOf(st, 20))
\* equilibrium is a fixed point of the Boltzmann equation, and it is attracting
FixedPoint == Real => REq(BoltzmannRhs(st, 20, 5, "1e-15", -20, -20), 0) /\ RLt(BoltzmannJac(st, 20, 5, "1e-15", -20, -21), 0)
\* annihilating harder leaves less
LessWhenStronger == RLt(SemiY("1e-9", "1e12"), SemiY("1e-9", "1e11"))
=============================================================================
