-------------------------------- MODULE Pbh --------------------------------
(***************************************************************************)
(* Evaporating primordial black holes as decaying dark matter: the photon  *)
(* spectrum of a tabulated mass is the table's, linear between its rows    *)
(* and zero beyond them.  The state is the table in use (fixed for life),  *)
(* the column of the current mass and the fraction f.                      *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, Json, IOUtils, TLC

Data == TLCEval(JsonDeserialize(IOEnv.PBH))      \* a sample of each table: columns and pairs of adjacent rows
Kinds == {"primary", "secondary", "blackhawk"}
Cols(k) == Len(Data[k].cols)
Segs(k) == Len(Data[k].segs)
Mass(k, c) == Data[k].cols[c].g                  \* grams
ToMeV(e) == RMul(1000, e)                        \* the tables are in GeV and GeV^-1 s^-1
EnergyAt(k, s, u) == LET g == Data[k].segs[s] IN ToMeV(RAdd(g.lo, RMul(u, RSub(g.hi, g.lo))))

Lowest(k) == ToMeV(Data[k].segs[1].lo)
Highest(k) == ToMeV(Data[k].segs[Segs(k)].hi)
Eps == "1e-13"                                   \* a row's energy in MeV is rounded
Inside(k, s, e) == RLeq(RMul(RSub(1, Eps), ToMeV(Data[k].segs[s].lo)), e) /\ RLeq(e, RMul(RAdd(1, Eps), ToMeV(Data[k].segs[s].hi)))
Column(k, c, e) ==
  IF RLt(e, RMul(RSub(1, Eps), Lowest(k))) \/ RLt(RMul(RAdd(1, Eps), Highest(k)), e) THEN "0"
  ELSE LET s == CHOOSE i \in 1..Segs(k) : Inside(k, i, e)
           g == Data[k].segs[s]
           u == RDiv(RSub(RDiv(e, 1000), g.lo), RSub(g.hi, g.lo))
       IN  RDiv(RAdd(g.ylo[c], RMul(u, RSub(g.yhi[c], g.ylo[c]))), 1000)
\* all decays go to the one channel; with no black holes there is nothing
Spectrum(st, e) == IF REq(st.f, 0) THEN "0" ELSE Column(st.kind, st.c, e)

Apply(st, o) ==
  CASE o.op = "new" -> [kind |-> o.kind, c |-> o.c, f |-> o.f]
    [] o.op = "mass" -> [st EXCEPT !.c = o.c]
    [] o.op = "fraction" -> [st EXCEPT !.f = o.f]
    [] OTHER -> st                               \* refused assignments change nothing
=============================================================================
