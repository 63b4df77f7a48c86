-------------------------------- MODULE NumbersModel --------------------------------
(* Laws that tie the definitions to one another, on a range of whole numbers. *)
EXTENDS Numbers
CONSTANT Max
VARIABLE n
Init == n \in {-5, 0}
Next == n < Max /\ n' = n + 1
Spec == Init /\ [][Next]_n
Powers == /\ PowerTwo(n) = (\E k \in 0..20 : n = 2 ^ k)
          /\ (n >= 1 => PowerTwo(NextTwo(n)) /\ NextTwo(n) >= n /\ (n = 1 \/ NextTwo(n) < 2 * n) /\ (PowerTwo(n) <=> NextTwo(n) = n))
Primes == Prime(n) = (n > 1 /\ \A d \in 2..(n - 1) : (n % d) # 0)
Parity == Odd(n) = Odd(-n) /\ Odd(n) # Odd(n + 1) /\ Sign(n) * n = (IF n < 0 THEN -n ELSE n)
C == Constants
Related == LET K == Constants IN n # 0 \/
           /\ REq(RMul(K.degree, K.radian), 1) /\ RNear(RSub(K.rayleigh_kurtosis, K.rayleigh_kurtosis_excess), 3, RTen(-15))
           /\ RWithin(RMul(K.rayleigh_kurtosis_excess, RMul(FourPi, FourPi)), RNeg(RAdd(RSub(RMul(6, RMul(Pi, Pi)), RMul(24, Pi)), 16)), RTen(-13))
           /\ RWithin(PiMinusThree, RSub(Pi, 3), RTen(-15))
           /\ RNear(RMul(K.phi, K.phi), RAdd(K.phi, 1), RTen(-15)) /\ RNear(RSub(RMul(K.cosh_one, K.cosh_one), RMul(K.sinh_one, K.sinh_one)), 1, RTen(-14))
======================================================================================
