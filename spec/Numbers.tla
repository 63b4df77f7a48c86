---------------------------------- MODULE Numbers ----------------------------------
(***************************************************************************)
(* Facts about single numbers: parity, sign, powers of two, primes, the    *)
(* kind of a floating-point number, small functions of one or two numbers, *)
(* complex numbers, and the named constants.  Stateless.                   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FReal, TLC

\* ---- whole numbers -------------------------------------------------------------------------------------
Odd(n) == (n % 2) # 0
Sign(n) == IF n < 0 THEN -1 ELSE 1
RECURSIVE PowerTwo(_)
PowerTwo(n) == IF n <= 0 THEN FALSE ELSE IF n = 1 THEN TRUE ELSE IF Odd(n) THEN FALSE ELSE PowerTwo(n \div 2)
RECURSIVE From(_, _)
From(p, n) == IF p >= n THEN p ELSE From(2 * p, n)
\* the least power of two that is not less than n >= 1 (below 2^30)
NextTwo(n) == From(1, n)
\* no divisor up to the square root
Prime(n) == n > 1 /\ (n = 2 \/ (Odd(n) /\ \A d \in 1..((RToInt(RSqrt(n)) - 1) \div 2) : (n % (2 * d + 1)) # 0))

\* large ones are written 2^k + d, with |d| small against 2^k: a power of two without d, and between this one and the next otherwise
LargePower(k, d) == d = 0
LargeNext(k, d) == IF d <= 0 THEN k ELSE k + 1

\* ---- floating point ------------------------------------------------------------------------------------
Least(t) == IF t = "f" THEN RPow(2, -126) ELSE RPow(2, -1022)
Kind(x, t) == CASE RIsNaN(x) -> "nan"
                [] RIsInf(x) -> "infinite"
                [] REq(x, 0) -> "zero"
                [] RLt(RAbs(x), Least(t)) -> "denormal"
                [] OTHER -> "normal"
Fract(x) == RSub(x, RFloor(x))
Tol(t) == IF t = "f" THEN RTen(-6) ELSE RTen(-13)

\* ---- distances -----------------------------------------------------------------------------------------
Distance(m, x, y) == CASE m = "manhattan" -> RAbs(RSub(x, y))
                       [] m = "euclidean" -> RMul(RSub(x, y), RSub(x, y))
                       [] m = "logarithmic" -> RLn(RDiv(RAbs(x), RAbs(y)))

\* ---- the named constants -------------------------------------------------------------------------------
Pi == RPi
E1 == RExp(1)
Root(x) == RSqrt(x)
Inverse(x) == RDiv(1, x)
Cube(x) == RMul(x, RMul(x, x))
Cbrt(x) == RPow(x, RRat(1, 3))
\* nine digits and nine digits more
Digits(a, b) == RAdd(RRat(a, 1000000000), RMul(RRat(b, 1000000000), RTen(-9)))
Euler == Digits(577215664, 901532861)
Zeta3 == RAdd(1, Digits(202056903, 159594285))
PiMinusThree == Digits(141592653, 589793238)
FourPi == RSub(1, PiMinusThree)
Excess == Digits(245089300, 687638063)
Phi == RDiv(RAdd(1, Root(5)), 2)
Constants ==
  [ half |-> RRat(1, 2), third |-> RRat(1, 3), twothirds |-> RRat(2, 3), two_thirds |-> RRat(2, 3), sixth |-> RRat(1, 6), three_quarters |-> RRat(3, 4),
    root_two |-> Root(2), root_three |-> Root(3), half_root_two |-> RDiv(Root(2), 2), ln_two |-> RLn(2), ln_ln_two |-> RLn(RLn(2)),
    root_ln_four |-> Root(RLn(4)), one_div_root_two |-> Inverse(Root(2)),
    pi |-> Pi, half_pi |-> RDiv(Pi, 2), third_pi |-> RDiv(Pi, 3), sixth_pi |-> RDiv(Pi, 6), two_pi |-> RMul(2, Pi),
    two_thirds_pi |-> RMul(RRat(2, 3), Pi), three_quarters_pi |-> RMul(RRat(3, 4), Pi), four_thirds_pi |-> RMul(RRat(4, 3), Pi),
    one_div_two_pi |-> Inverse(RMul(2, Pi)), one_div_root_two_pi |-> Inverse(Root(RMul(2, Pi))), root_pi |-> Root(Pi),
    root_half_pi |-> Root(RDiv(Pi, 2)), root_two_pi |-> Root(RMul(2, Pi)), log_root_two_pi |-> RLn(Root(RMul(2, Pi))),
    one_div_root_pi |-> Inverse(Root(Pi)), root_one_div_pi |-> Root(Inverse(Pi)), pi_minus_three |-> PiMinusThree, four_minus_pi |-> FourPi,
    pi_pow_e |-> RPow(Pi, E1), pi_sqr |-> RMul(Pi, Pi), pi_sqr_div_six |-> RDiv(RMul(Pi, Pi), 6), pi_cubed |-> Cube(Pi), cbrt_pi |-> Cbrt(Pi),
    one_div_cbrt_pi |-> Inverse(Cbrt(Pi)), e |-> E1, exp_minus_half |-> RExp(RRat(-1, 2)), e_pow_pi |-> RExp(Pi), root_e |-> Root(E1),
    log10_e |-> Inverse(RLn(10)), one_div_log10_e |-> RLn(10), ln_ten |-> RLn(10), degree |-> RDiv(Pi, 180), radian |-> RDiv(180, Pi),
    sin_one |-> RSin(1), cos_one |-> RCos(1), sinh_one |-> RDiv(RSub(E1, Inverse(E1)), 2), cosh_one |-> RDiv(RAdd(E1, Inverse(E1)), 2),
    phi |-> Phi, ln_phi |-> RLn(Phi), one_div_ln_phi |-> Inverse(RLn(Phi)), euler |-> Euler, one_div_euler |-> Inverse(Euler),
    euler_sqr |-> RMul(Euler, Euler), zeta_two |-> RDiv(RMul(Pi, Pi), 6), zeta_three |-> Zeta3, catalan |-> Digits(915965594, 177219015),
    glaisher |-> RAdd(1, Digits(282427129, 100622637)), khinchin |-> RAdd(2, Digits(685452001, 65306445)),
    extreme_value_skewness |-> RDiv(RMul(RMul(12, Root(6)), Zeta3), Cube(Pi)),
    rayleigh_skewness |-> RDiv(RMul(RMul(2, Root(Pi)), PiMinusThree), RMul(FourPi, Root(FourPi))),
    rayleigh_kurtosis |-> RAdd(3, Excess), rayleigh_kurtosis_excess |-> Excess, two_div_pi |-> RDiv(2, Pi), root_two_div_pi |-> Root(RDiv(2, Pi)) ]

\* ---- conformance ---------------------------------------------------------------------------------------
NumbersStart == 0
Whole(e) == /\ e.odd = Odd(e.n) /\ e.even = ~Odd(e.n)
            /\ e.negative = (e.n < 0) /\ e.sign = Sign(e.n)
            /\ e.power = PowerTwo(e.n)
            /\ ("next" \in DOMAIN e => e.next = NextTwo(e.n))
            /\ ("prime" \in DOMAIN e => e.prime = Prime(e.n))
NumbersEval(st, e) ==
  [ st |-> st,
    ok |-> CASE e.op = "whole" -> Whole(e)
             [] e.op = "large" -> e.power = LargePower(e.k, e.d) /\ ("next" \in DOMAIN e => e.next = LargeNext(e.k, e.d)) /\ e.odd = Odd(e.d)
             [] e.op = "product" -> e.prime = FALSE       \* of two numbers greater than one
             [] e.op = "kind" -> /\ e.normal = (Kind(e.x, e.t) = "normal") /\ e.denormal = (Kind(e.x, e.t) = "denormal")
                                 /\ e.zero = (Kind(e.x, e.t) = "zero") /\ e.nan = (Kind(e.x, e.t) = "nan") /\ e.inf = (Kind(e.x, e.t) = "infinite")
                                 /\ e.negative = (~RIsNaN(e.x) /\ RLt(e.x, 0))
                                 /\ (RIsNaN(e.x) \/ REq(e.sign, IF RLt(e.x, 0) THEN -1 ELSE 1))
             [] e.op = "one" -> /\ RNear(e.square, RMul(e.x, e.x), Tol(e.t)) /\ RNear(e.half, RDiv(e.x, 2), Tol(e.t))
                                /\ RWithin(e.fract, Fract(e.x), RMul(Tol(e.t), RMax(1, RAbs(e.x)))) /\ RLe(0, e.fract) /\ RLe(e.fract, 1)
                                /\ (REq(e.x, 0) \/ RWithin(RMul(e.inv, e.x), 1, Tol(e.t)))
             [] e.op = "distance" -> LET d == Distance(e.m, e.x, e.y) IN
                                     RWithin(e.ret, d, IF e.m = "logarithmic" THEN RMul(Tol(e.t), RMax(1, RAbs(d))) ELSE RMul(Tol(e.t), RAbs(d)))
             [] e.op = "apart" -> e.ret = (IF e.m = "manhattan" THEN (IF e.n < e.k THEN e.k - e.n ELSE e.n - e.k) ELSE (e.n - e.k) * (e.n - e.k))
             [] e.op = "complex" -> /\ RNear(e.mag, RSqrt(RAdd(RMul(e.x, e.x), RMul(e.y, e.y))), Tol(e.t)) /\ RNear(e.phase, RAtan2(e.y, e.x), Tol(e.t))
                                    /\ REq(e.re, e.x) /\ REq(e.im, e.y) /\ REq(e.cre, e.x) /\ REq(e.cim, RNeg(e.y))
             [] e.op = "limits" -> e.nan = (RIsNaN(e.x) \/ RIsNaN(e.y)) /\ e.inf = (RIsInf(e.x) \/ RIsInf(e.y)) /\ RIsInf(e.infre) /\ RIsInf(e.infim)
             [] e.op = "constant" -> RWithin(e.ret, Constants[e.name], RMul(IF e.t = "f" THEN RTen(-7) ELSE RMul(4, RTen(-15)), RAbs(Constants[e.name]))) ]
=====================================================================================
