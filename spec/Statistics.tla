------------------------------ MODULE Statistics ------------------------------
(***************************************************************************)
(* Descriptive statistics of a finite sequence of reals, by definition.    *)
(* Stateless: every operation is a function of its arguments.              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FReal, TLC

Mapped(x, f(_)) == TLCEval([k \in 1..Len(x) |-> f(x[k])])
Total(x) == RSum(x)
Mean(x) == RDiv(RSum(x), Len(x))
\* products rather than a power function, so that negative bases and order 0 are plain
RECURSIVE IPow(_, _)
IPow(v, n) == IF n = 0 THEN R(1) ELSE RMul(v, IPow(v, n - 1))
MomentAbout(x, n, m) == Mean(Mapped(x, LAMBDA v : IPow(RSub(v, m), n)))
Moment(x, n) == MomentAbout(x, n, Mean(x))
Variance(x) == Moment(x, 2)
Deviation(x) == RSqrt(Variance(x))
Skewness(x) == RDiv(Moment(x, 3), RPow(Moment(x, 2), RRat(3, 2)))
Kurtosis(x) == LET m == Moment(x, 2) IN RDiv(Moment(x, 4), RMul(m, m))
\* (mean x^b)^(1/b), b # 0
PowerMean(x, b) == LET p(v) == IF b > 0 THEN IPow(v, b) ELSE RDiv(1, IPow(v, -b))
                   IN RPow(Mean(Mapped(x, p)), RDiv(1, b))
HarmonicMean(x) == RDiv(Len(x), RSum(Mapped(x, LAMBDA v : RDiv(1, v))))
GeometricMean(x) == RExp(Mean(Mapped(x, LAMBDA v : RLn(v))))
Norm(x) == RSqrt(RDot(x, x))
\* the place of the first element no other exceeds
FirstMax(x) == CHOOSE k \in 1..Len(x) : (\A j \in 1..Len(x) : RLe(x[j], x[k])) /\ (\A j \in 1..(k - 1) : RLt(x[j], x[k]))
Magnitudes(x) == Mapped(x, LAMBDA v : RAbs(v))
Maximum(x) == x[FirstMax(x)]
Minimum(x) == RNeg(Maximum(Mapped(x, LAMBDA v : RNeg(v))))
\* the middle of the sorted values, without sorting
Below(x, v) == Len(SelectSeq(x, LAMBDA u : RLt(u, v)))
Equal(x, v) == Len(SelectSeq(x, LAMBDA u : REq(u, v)))
Ranked(x, k) == x[CHOOSE j \in 1..Len(x) : Below(x, x[j]) < k /\ k <= Below(x, x[j]) + Equal(x, x[j])]
Median(x) == LET n == Len(x) IN IF n % 2 = 1 THEN Ranked(x, n \div 2 + 1) ELSE RDiv(RAdd(Ranked(x, n \div 2), Ranked(x, n \div 2 + 1)), 2)

\* ---- conformance ------------------------------------------------------------------------------------------------
StatEps(e) == IF "t" \in DOMAIN e /\ e.t = "f" THEN RMul(2, RTen(-6)) ELSE RTen(-14)
Big(x) == Maximum(Magnitudes(x))
\* the rounding of a sum of n terms no larger than s
Close(e, got, want, s) == RIsFinite(got) /\ RWithin(got, want, RMul(StatEps(e), RMul(2 + Len(e.x), s)))
\* Central moments are sensitive to the deviations d from the mean, and through the rounding of the mean to b * d.
Furthest(x, m) == Big(Mapped(x, LAMBDA v : RSub(v, m)))
CentralBound(d, b, n) == IF n = 0 THEN R(1) ELSE RMul(1 + n, RAdd(IPow(d, n), RMul(b, IPow(d, n - 1))))
MeanError(e, b) == RMul(RMul(StatEps(e), Len(e.x)), b)            \* a bound of the rounding of the mean
CentralScale(e, n) == LET m == Mean(e.x)
                          d == RAdd(Furthest(e.x, m), MeanError(e, RAbs(m)))
                      IN CentralBound(d, RAbs(m), n)
\* in units of the deviation: r = largest deviation, b = mean
ShapeScale(e, n) == LET m == Mean(e.x)
                        s == Deviation(e.x)
                        r == RDiv(Furthest(e.x, m), s)
                    IN RMul(8, CentralBound(r, RDiv(RAbs(m), s), n))
StatisticsStart == 0
StatisticsEval(st, e) ==
  LET x == e.x
      B == Big(x)
  IN [ st |-> st,
       ok |-> CASE e.op = "mean" -> Close(e, e.ret, Mean(x), B)
                [] e.op = "max" -> REq(e.ret, Maximum(x))
                [] e.op = "min" -> REq(e.ret, Minimum(x))
                [] e.op = "maxabs" -> REq(e.ret, B)
                [] e.op = "minabs" -> REq(e.ret, Minimum(Magnitudes(x)))
                [] e.op = "peak" -> e.at = FirstMax(x) - 1 /\ REq(e.ret, Maximum(x))
                [] e.op = "peakabs" -> LET k == FirstMax(Magnitudes(x)) IN e.at = k - 1 /\ REq(e.ret, x[k])
                [] e.op = "median" -> IF Len(x) % 2 = 1 THEN REq(e.ret, Median(x)) ELSE Close(e, e.ret, Median(x), B)
                [] e.op = "variance" -> RLe(0, e.ret) /\ Close(e, e.ret, Variance(x), CentralScale(e, 2))
                [] e.op = "deviation" -> RLe(0, e.ret) /\ Close(e, RMul(e.ret, e.ret), Variance(x), CentralScale(e, 2))
                [] e.op = "moment" -> Close(e, e.ret, IF "m" \in DOMAIN e THEN MomentAbout(x, e.n, e.m) ELSE Moment(x, e.n),
                                            IF "m" \in DOMAIN e THEN RMul(1 + e.n, IPow(Furthest(x, e.m), e.n)) ELSE CentralScale(e, e.n))
                [] e.op = "skewness" -> Close(e, e.ret, Skewness(x), ShapeScale(e, 3))
                [] e.op = "kurtosis" -> Close(e, e.ret, Kurtosis(x), ShapeScale(e, 4))
                [] e.op = "norm" -> Close(e, e.ret, Norm(x), B)
                [] e.op = "power_mean" -> Close(e, e.ret, PowerMean(x, e.b), RMul(4, B))
                [] e.op = "harmonic" -> Close(e, e.ret, HarmonicMean(x), RMul(4, B))
                [] e.op = "geometric" -> Close(e, e.ret, GeometricMean(x), RMul(64, B)) ]
===============================================================================
