------------------------------ MODULE RatTest ------------------------------
(* The laws the arithmetic of Rat.java has to obey, checked by TLC on a grid. *)
EXTENDS Rat, Integers, Sequences, TLC
G == {"0", "1", "-1", "1/3", "-7/5", "0x1.999999999999ap-4", "123456789012345678901234567890/7", "2.5e-9"}
P == {"1/3", "2", "7/5", "0x1.999999999999ap-4", "40"}
ASSUME \A a \in G, b \in G : RAdd(a, b) = RAdd(b, a) /\ RMul(a, b) = RMul(b, a) /\ RSub(RAdd(a, b), b) = RNorm(a)
ASSUME \A a \in G, b \in G, c \in G : RMul(a, RAdd(b, c)) = RAdd(RMul(a, b), RMul(a, c))
ASSUME \A a \in G, b \in G : (RLt(a, b) \/ RLt(b, a) \/ REq(a, b)) /\ (RLeq(a, b) <=> ~RLt(b, a))
ASSUME \A a \in G \ {"0"} : RMul(a, RDiv("1", a)) = "1" /\ RPow(a, -2) = RDiv(1, RMul(a, a))
ASSUME RDiv("1", "0") = "nan" /\ ~REq("nan", "nan") /\ ~RLeq("nan", "1") /\ RLt("-inf", "inf") /\ RClose("inf", "inf", 0, 0) /\ ~RClose("inf", "1", "1", "1")
ASSUME RNorm("0x1.8p+1") = "3" /\ RNorm("-6/4") = "-3/2" /\ RNorm(7) = "7" /\ RNorm("x") = "nan"
ASSUME RSqrt("9/4") = "3/2" /\ \A a \in P : RClose(RPow(RSqrt(a), 2), a, "1e-40", 0)
ASSUME \A a \in P : RClose(RLn(RExp(a)), a, "1e-40", 0) /\ RClose(RExp(RLn(a)), a, "1e-40", 0)
ASSUME \A a \in P, b \in P : RClose(RExp(RAdd(a, b)), RMul(RExp(a), RExp(b)), "1e-40", 0)
ASSUME RSum(<<"1/2", "1/3", 1>>) = "11/6" /\ RDot(<<1, 2>>, <<"1/2", "3">>) = "13/2" /\ RSum(<<>>) = "0"
ASSUME RClose(RErf(1), "0.842700792949714869341220635082609", "1e-30", 0) /\ RErf(0) = "0"
\* K_{n+1}(x) = K_{n-1}(x) + (2n/x) K_n(x), and K_1(1)
ASSUME \A x \in P : RClose(RBesselK(2, x), RAdd(RBesselK(0, x), RMul(RDiv(2, x), RBesselK(1, x))), "1e-12", 0)
ASSUME RClose(RBesselK(1, 1), "0.601907230197234574737540001535617", "1e-13", 0)
ASSUME RFloor("-1/2") = -1 /\ RFloor("7/2") = 3
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
