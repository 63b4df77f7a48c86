-------------------------------- MODULE FReal --------------------------------
(***************************************************************************)
(* Real arithmetic for executable specifications.                          *)
(*                                                                         *)
(* A real is a pair <<hi, lo>> of 32-bit integers (the IEEE-754 image of   *)
(* the number), or a plain integer, which every operator accepts.  TLC     *)
(* evaluates the operators with java/FReal.java; the definitions below are *)
(* placeholders (TLC replaces every one of them) whose comments give the   *)
(* mathematical meaning.                                                   *)
(***************************************************************************)
LOCAL INSTANCE TLC
LOCAL Undef == Assert(FALSE, "FReal: java override missing")

R(n)          == Undef  \* the integer n as a real
RRat(p, q)    == Undef  \* p / q
RTen(k)       == Undef  \* 10 ^ k, k an integer
RAdd(x, y)    == Undef  \* x + y
RSub(x, y)    == Undef  \* x - y
RMul(x, y)    == Undef  \* x * y
RDiv(x, y)    == Undef  \* x / y
RNeg(x)       == Undef  \* -x
RAbs(x)       == Undef  \* |x|
RMax(x, y)    == Undef
RMin(x, y)    == Undef
RSqrt(x)      == Undef
RExp(x)       == Undef
RLn(x)        == Undef  \* natural logarithm
RPow(x, y)    == Undef  \* x ^ y
RSin(x)       == Undef
RCos(x)       == Undef
RTan(x)       == Undef
RAtan(x)      == Undef
RAtan2(y, x)  == Undef
RPi           == Undef
RFloor(x)     == Undef
RMod(x, y)    == Undef  \* x - y * floor(x / y)
RToInt(x)     == Undef  \* truncation to an integer
RFloat(x)     == Undef  \* nearest single precision number
RLt(x, y)     == Undef
RLe(x, y)     == Undef
REq(x, y)     == Undef
RIsNaN(x)     == Undef
RIsFinite(x)  == Undef
RIsInf(x)     == Undef
RNear(x, y, t)    == Undef  \* |x - y| <= t * max(1, |y|)
RWithin(x, y, t)  == Undef  \* |x - y| <= t
RSum(s)           == Undef  \* sum of a finite sequence
RDot(s, t)        == Undef  \* sum of s[i] * t[i]
RSeqNear(s, t, e) == Undef  \* same length and RNear elementwise
RStr(x)           == Undef  \* decimal text, for diagnostics only
==============================================================================
