--------------------------- MODULE PhaseSpaceGen ---------------------------
EXTENDS PhaseSpace, TLC, Json
CONSTANTS Mode, Depth, Ops
VARIABLES st, hist

Cmes == {"1", "7/2", "10", "1000"}
Shapes2 == {<<"0", "0">>, <<"1/2", "0">>, <<"3/10", "3/10">>, <<"1/5", "7/10">>, <<"2", "1">>}
Shapes3 == {<<"1/2", "3/10", "1995/10000">>, <<"3/5", "1/1000", "0">>, <<"0", "0", "0">>, <<"1/5", "0", "0">>, <<"1/10", "3/10", "2/5">>, <<"1/4", "1/4", "1/4">>, <<"0", "0", "9/10">>, <<"3", "1/2", "1">>}
Shapes4 == {<<"33/100", "33/100", "33/100", "1/10000">>, <<"0", "0", "0", "0">>, <<"1/10", "0", "2/5", "1/10">>, <<"1/5", "1/5", "1/5", "1/5">>}
Shapes5 == {<<"0", "0", "0", "0", "0">>, <<"1/10", "1/5", "0", "3/10", "1/20">>}
Scaled(m, q) == [i \in 1..Len(m) |-> RMul(m[i], q)]     \* masses in units of the energy, so that they are usually open
States == UNION {{[cls |-> c, cme |-> q, masses |-> Scaled(m, q), me |-> e, sig |-> sg] : m \in
      (IF c = "two" THEN Shapes2 ELSE IF c = "three" THEN Shapes3 ELSE Shapes2 \cup Shapes3 \cup Shapes4 \cup Shapes5),
      e \in (IF c = "two" THEN {<<"1", "0", "0">>, <<"2", "1", "3">>, <<"0", "0", "1/2">>}
             ELSE {<<"1", "0", "0">>, <<"1/2", "1", "0">>, <<"2", "1/4", "3">>}), sg \in {"native", "momenta", "none"}} :
      c \in {"rambo", "two", "three"}, q \in Cmes}
Legal(s) == /\ (s.sig = "none" => s.me = <<"1", "0", "0">>)
            /\ (s.cls = "rambo" => s.sig # "native")
            /\ (s.cls = "rambo" => IsOpen(s) /\ (Len(s.masses) # 3 => s.me[3] = "0"))
            /\ (s.cls = "two" => IsOpen(s))
Start == {s \in States : Legal(s)}
Mine == {s \in Start : s.cls \in (IF Ops \subseteq {"points", "batches"} THEN {"rambo"} ELSE IF Ops \subseteq {"edist", "idist", "dist"} THEN {"rambo", "three"} ELSE {"rambo", "two", "three"})}
Init == st = [cls |-> "none"] /\ hist = <<>>

Masses(s) == CASE s.cls = "two" -> Shapes2 [] s.cls = "three" -> Shapes3 [] OTHER -> (CASE Len(s.masses) = 2 -> Shapes2 \cup Shapes3 [] Len(s.masses) = 3 -> Shapes3 \cup Shapes4 [] OTHER -> Shapes5 \cup Shapes4)
Sets(s) == {o \in {[op |-> "cme", x |-> q] : q \in Cmes \cup {"2", "19/2"}}
                  \cup {[op |-> "masses", x |-> Scaled(m, q)] : m \in Masses(s), q \in {s.cme, "1/2"}}
                  \cup (IF s.cls # "rambo" /\ s.sig # "none" THEN {[op |-> "me", x |-> e] : e \in {<<"1", "0", "0">>, <<"3", "1/2", "1">>}} ELSE {}) :
              LET t == Apply(s, o) IN s.cls = "three" \/ RLt(Ms(t), RMul("9996/10000", t.cme))}
Dists == {[xs |-> xs, ys |-> ys] : xs \in {<<"0", "1", "2", "3", "4", "5">>, <<"1/2", "3/2", "5/2", "7/2", "9/2", "11/2">>},
                                  ys \in {<<"1", "2", "3", "1", "1/2">>, <<"0", "4", "0", "2", "1">>, <<"0", "0", "0", "0", "0">>}}
         \cup {[xs |-> <<"0", "1", "3", "10">>, ys |-> <<"2", "5", "1">>]}
Queries(s) == {o \in
  [op : {"points"}, n : {4}, seed : 1..3] \cup [op : {"batches"}, n : {5, 6}, b : {2, 3}, seed : 1..3]
  \cup [op : {"mc"}, n : {20}, b : {0, 20, 10, 6}, seed : 1..3, what : {"integral", "width", "xs"}, m1 : {"1/10"}, m2 : {"1/5"}]
  \cup [op : {"volume"}, method : {"quad", "rambo"}]
  \cup [op : {"edist", "idist"}, method : {"quad"}, nbins : {3, 6}]
  \cup [op : {"edist", "idist"}, method : {"rambo"}, nbins : {3, 5}, n : {24}, b : {0, 24, 12, 9}, seed : 1..3]
  \cup [op : {"dist"}, d : Dists, f : {<<"1">>, <<"0", "1">>, <<"1", "0", "2">>}] :
    /\ o.op \in Ops
    /\ (o.op \in {"points", "batches", "mc"} => s.cls = "rambo")
    /\ (o.op = "volume" => (s.cls = "rambo" => o.method = "rambo" /\ Len(s.masses) \in 2..4 /\ (Len(s.masses) # 3 => Flat(s))) /\ (s.cls = "two" => o.method = "quad"))
    /\ (o.op \in {"edist", "idist"} => Len(s.masses) >= 3 /\ s.cls # "two" /\ IsOpen(s)
                                       /\ (o.method = "quad" <=> s.cls = "three"))}
\* every kind of operation is equally likely within changes and within queries
OfKind(S) == LET k == RandomElement({o.op : o \in S}) IN RandomElement({o \in S : o.op = k})
Pick(s) == LET q == Queries(s) IN IF RandomElement(1..3) = 1 \/ q = {} THEN OfKind(Sets(s)) ELSE OfKind(q)
Next ==
  IF Mode = "laws" THEN st.cls = "none" /\ hist = <<>> /\ st' \in {s \in Start : s.cls = "three" /\ s.sig = "native" /\ s.cme \in {"1", "10"}} /\ UNCHANGED hist
  ELSE \/ hist = <<>> /\ \E s \in {RandomElement(Mine)} : st' = s /\ hist' = <<[op |-> "new", st |-> s]>>
       \/ Len(hist) > 0 /\ Len(hist) < Depth /\ \E o \in {Pick(st)} : st' = Apply(st, o) /\ hist' = Append(hist, o)
       \/ Len(hist) = Depth /\ PrintT("B " \o ToJson(hist)) /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED st

-----------------------------------------------------------------------------
\* design-level laws
Swap(s) == [s EXCEPT !.masses = <<s.masses[2], s.masses[1]>> \o SubSeq(s.masses, 3, Len(s.masses))]
Near(x, y) == RClose(x, y, "1e-6", "1e-30")
Real == st.cls # "none"
MasslessClosedForm == Real /\ IsOpen(st) /\ Massless(st) /\ Len(st.masses) = 3
                        => Near(ThreeBodyOf(st.cme, st.masses, <<"1", "0", "0">>), MasslessVolume(3, st.cme))
Symmetric == Real /\ Len(st.masses) = 3 => Near(ThreeBodyOf(st.cme, st.masses, <<"1", "0", "0">>), ThreeBodyOf(st.cme, Swap(st).masses, <<"1", "0", "0">>))
\* the element and the axes may be exchanged together
Relabelled == Real /\ Len(st.masses) = 3 /\ IsOpen(st) =>
  \A i \in 1..3 : Near(ThreeBodyOf(st.cme, [k \in 1..3 |-> st.masses[Perm(i)[k]]], PMe(st, i)), ThreeBodyOf(st.cme, st.masses, st.me))
\* mean energies add up to the energy of the system
Bins == 24
MeanE(i) == LET lo == ELo(st, i)  hi == EHi(st, i)  p == DensityBins(LAMBDA e : EnergyDensity(st, i, e), lo, hi, Bins)
            IN  RSum([k \in 1..Bins |-> RMul(RMul(p[k], Centre(lo, hi, Bins, k)), RDiv(RSub(hi, lo), Bins))])
EnergiesAddUp == Real /\ st.cls = "three" /\ IsOpen(st) => RClose(RSum([i \in 1..3 |-> MeanE(i)]), st.cme, "1e-2", 0)
ClosedIsZero == Real /\ ~IsOpen(st) => REq(Integral(st), 0)
=============================================================================
