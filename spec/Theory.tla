------------------------------- MODULE Theory -------------------------------
(***************************************************************************)
(* A dark-matter model as hazma.theory sees it: a set of final states,     *)
(* each with a rate (annihilation cross section, or decay width), a photon *)
(* and a positron spectrum, and possibly a line.  The state is the model's *)
(* parameters; queries never change it; everything the library aggregates  *)
(* is a function of the current parameters only.                           *)
(*                                                                         *)
(*   rate of channel i   : a[i] * ecm if ecm > thr[i], else 0 (ann)        *)
(*                         a[i]                               (dec)        *)
(*   mx                  : its mass                                        *)
(*   photon spectrum     : p[i] + q[i] * e (+ ecm/8 for ann)               *)
(*   positron spectrum   : u[i] + v[i] * e (+ ecm/4 for ann)               *)
(*                                                                         *)
(* The numbers are exact rationals (module Rat).                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Rat

N(st) == Len(st.ch)
Chan(st) == {st.ch[i] : i \in 1..N(st)}
Idx(st, c) == CHOOSE i \in 1..N(st) : st.ch[i] = c

Rate(st, i, ecm) ==
  IF st.kind = "dec" THEN RNorm(st.a[i])
  ELSE IF RLt(st.thr[i], ecm) THEN RMul(st.a[i], ecm) ELSE "0"

Rates(st, ecm) == [i \in 1..N(st) |-> Rate(st, i, ecm)]
Total(st, ecm) == RSum(Rates(st, ecm))
Bf(st, i, ecm) == IF REq(Total(st, ecm), 0) THEN "0" ELSE RDiv(Rate(st, i, ecm), Total(st, ecm))
Open(st, i, ecm) == RLt(0, Rate(st, i, ecm))

\* particle \in {"g", "p"}: the spectrum of one channel per decay or annihilation, 0 when closed
Dnde(st, particle, i, e, ecm) ==
  IF ~Open(st, i, ecm) THEN "0"
  ELSE IF particle = "g"
       THEN RSum(<<st.p[i], RMul(st.q[i], e), IF st.kind = "ann" THEN RDiv(ecm, 8) ELSE "0">>)
       ELSE RSum(<<st.u[i], RMul(st.v[i], e), IF st.kind = "ann" THEN RDiv(ecm, 4) ELSE "0">>)

Weighted(st, particle, i, e, ecm) == RMul(Bf(st, i, ecm), Dnde(st, particle, i, e, ecm))
TotalDnde(st, particle, e, ecm) == RSum([i \in 1..N(st) |-> Weighted(st, particle, i, e, ecm)])

\* channels with a line, and where it is
LineDiv(particle) == IF particle = "g" THEN [c \in {"g g", "pi0 g"} |-> IF c = "g g" THEN 2 ELSE 4]
                     ELSE [c \in {"e e"} |-> 2]
LineChan(st, particle) == Chan(st) \cap DOMAIN LineDiv(particle)
LineEnergy(st, particle, c, ecm) == RDiv(IF st.kind = "ann" THEN ecm ELSE st.mx, LineDiv(particle)[c])

-----------------------------------------------------------------------------
\* operations: [op |-> "new", st |-> ...], [op |-> "set", f, i, x], or a query
Apply(st, o) ==
  CASE o.op = "new" -> o.st
    [] o.op = "set" -> [st EXCEPT ![o.f][o.i] = o.x]
    [] o.op = "setmx" -> [st EXCEPT !.mx = o.x]
    [] OTHER -> st
=============================================================================
