------------------------------ MODULE Single -------------------------------
(***************************************************************************)
(* Dark matter annihilating or decaying into one final state.  The state   *)
(* is the model: its class, mass, final state and strength.  Spectra of    *)
(* the final state itself are parameters (decided elsewhere).              *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, SequencesExt, TLC
Mass == [e |-> "0.5109989461", mu |-> "105.6583745", ve |-> "0", vt |-> "0", pi |-> "139.57039", pi0 |-> "134.9768",
         k |-> "493.677", eta |-> "547.862", omega |-> "782.66", rho |-> "775.26", a |-> "0", photon |-> "0"]
States == {<<"e", "e">>, <<"mu", "mu">>, <<"pi", "pi">>, <<"pi0", "pi0">>, <<"a", "a">>, <<"photon", "photon">>, <<"pi0", "a">>,
           <<"a", "pi0">>, <<"eta", "photon">>, <<"photon", "eta">>, <<"a", "ve">>, <<"e", "mu">>, <<"mu", "e">>, <<"k", "k">>, <<"ve", "vt">>,
           <<"omega", "pi0">>, <<"e", "pi">>, <<"rho", "e">>}
Triples == {<<"mu", "mu", "pi0">>, <<"pi", "pi", "pi0">>, <<"e", "pi", "ve">>}
IsPhoton(p) == p \in {"a", "photon"}
Threshold(fs) == RSum([i \in 1..Len(fs) |-> Mass[fs[i]]])
\* energy of the i-th of two particles
Two(fs, e, i) == LET m == Mass[fs[i]] o == Mass[fs[3 - i]] IN
  RDiv(RAdd(RMul(e, e), RSub(RMul(m, m), RMul(o, o))), RMul(2, e))
Open(s, ecm) == RLeq(Threshold(s.fs), ecm) /\ RLeq(RMul(2, s.mx), ecm)
\* energy available to the final state
Energy(s, ecm) == IF s.cls = "ann" THEN ecm ELSE s.mx
Rate(s, ecm) == IF s.cls = "dec" \/ Open(s, ecm) THEN s.g ELSE "0"
Bf(s, ecm) == IF REq(Rate(s, ecm), 0) THEN "0" ELSE "1"
\* which particles of a pair are the product
Wanted(kind, p) == IF kind = "photon" THEN IsPhoton(p) ELSE p = "e"
Hits(kind, fs) == IF Len(fs) # 2 THEN {} ELSE {i \in 1..2 : Wanted(kind, fs[i])}
HasLine(kind, fs) == Hits(kind, fs) # {}
LineAt(kind, s, ecm) == Two(s.fs, Energy(s, ecm), CHOOSE i \in Hits(kind, s.fs) : TRUE)
Number(kind, fs) == IF Hits(kind, fs) = {1, 2} THEN 2 ELSE 1
Fresh == [cls |-> "none", mx |-> "0", fs |-> <<>>, g |-> "0"]
ApplyS(s, o) ==
  CASE o.op = "new" -> [cls |-> o.cls, mx |-> o.mx, fs |-> o.fs, g |-> o.g]
    [] o.op = "mx" -> [s EXCEPT !.mx = o.mx]
    [] o.op = "fs" -> [s EXCEPT !.fs = o.fs]
    [] o.op = "g" -> [s EXCEPT !.g = o.g]
    [] OTHER -> s
=============================================================================
