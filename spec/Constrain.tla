----------------------------- MODULE Constrain -----------------------------
(***************************************************************************)
(* The constrainers of hazma.limits: a list of models goes in, one bound   *)
(* per model comes out, in order.  The state is the list of models and the *)
(* composite constrainers built so far, each with its own members.         *)
(*                                                                         *)
(* A constrainer is [name, ...]: "cmb" (x_kd, p_ann), a telescope (sigma,  *)
(* method), or "relic-density" (a coupling searched in a bracket).         *)
(***************************************************************************)
EXTENDS Cmb, TLC

Telescopes == {"comptel", "egret", "fermi", "integral"}
State0 == [models |-> <<>>, comps |-> <<>>]
Apply2(s, o) ==
  CASE o.op = "new" -> [models |-> o.models, comps |-> <<>>]
    [] o.op = "composite" -> [s EXCEPT !.comps = Append(@, o.with)]
    [] o.op = "add" -> [s EXCEPT !.comps[o.i] = Append(@, o.c)]
    [] o.op = "reset" -> [s EXCEPT !.comps[o.i] = <<>>]
    [] o.op = "set" -> [s EXCEPT !.models[o.i].a[1] = o.x]
    [] OTHER -> s

NamesOf(cs) == {cs[i].name : i \in 1..Len(cs)}
\* a name used twice is answered by the constrainer added last
Member(cs, n) == cs[CHOOSE i \in 1..Len(cs) : cs[i].name = n /\ \A j \in (i + 1)..Len(cs) : cs[j].name # n]

\* the bound a CMB constrainer gives a model
CmbOf(m, c) == CmbLimit(m, c.xkd, c.pann)

\* relic density: a model with cross section scale * g * (ecm/m)^q; the coupling found must give the observed density
OmegaCdm == "0.1198"
CmPerS == RMul(RPow("2.99792458e10", 3), RPow("6.582119569e-22", 2))
RelicSigma(m, g, ecm) == RMul(RMul("1e-9", g), RPow(RDiv(ecm, m.mx), m.q))
RelicBound(m, g, vx) == RMul(RMul(RelicSigma(m, g, RMul(RMul(2, m.mx), RAdd(1, RDiv(RMul(vx, vx), 2)))), vx), CmPerS)
=============================================================================
