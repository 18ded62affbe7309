-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Arbitrary-precision rational arithmetic for TLC.                        *)
(*                                                                         *)
(* A number is a STRING: "7", "-3/4", the exact hexadecimal form of a      *)
(* float64 ("0x1.8p+3", what Python's float.hex() writes), or one of       *)
(* "inf", "-inf", "nan".  TLC's own integers (32 bits) are accepted        *)
(* wherever a number is.  Every operator below is evaluated by Rat.java    *)
(* (TLC loads a class named like the module); the bodies here are only     *)
(* placeholders that give SANY the arity.                                  *)
(*                                                                         *)
(* RAdd, RSub, RMul, RDiv, RNeg, RAbs, RPow, RSum, RDot and the            *)
(* comparisons are exact (a result of more than 1600 bits is rounded at    *)
(* relative 1e-120).  RSqrt, RExp, RLn, RPi, RErf are within relative      *)
(* 1e-40; RBesselK within 1e-12.  Comparisons with "nan", or with anything *)
(* that is not a number, are FALSE; arithmetic on it is "nan".             *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL Num == CHOOSE s \in STRING : TRUE
LOCAL Boo == CHOOSE b \in BOOLEAN : TRUE

RNorm(a)          == Num     \* canonical form
RRound(a)         == Num     \* to 45 digits when its fraction is long
RAdd(a, b)        == Num
RSub(a, b)        == Num
RMul(a, b)        == Num
RDiv(a, b)        == Num     \* x/0 is "nan"
RNeg(a)           == Num
RAbs(a)           == Num
RMin(a, b)        == Num
RMax(a, b)        == Num
RPow(a, n)        == Num     \* n an integer
RSqrt(a)          == Num     \* negative: "nan"
RExp(a)           == Num
RLn(a)            == Num
RErf(a)           == Num
RBesselK(n, x)    == Num     \* modified Bessel function of the second kind
RPi               == Num
RSum(s)           == Num     \* of a sequence of numbers
RDot(s, t)        == Num     \* of two sequences of one length
RLt(a, b)         == Boo
RLeq(a, b)        == Boo
REq(a, b)         == Boo
RFin(a)           == Boo     \* a finite number
RIsNan(a)         == Boo
RIsInf(a)         == Boo     \* "inf" (not "-inf")
RClose(a, b, r, t) == Boo    \* both finite and |a-b| <= t + r*max(|a|,|b|), or equal infinities
RFloor(a)         == CHOOSE n \in Int : TRUE   \* must fit TLC's integers
=============================================================================
