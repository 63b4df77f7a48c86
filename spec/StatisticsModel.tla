---------------------------- MODULE StatisticsModel ----------------------------
(***************************************************************************)
(* Every vector over a small alphabet: order relations and identities the  *)
(* definitions satisfy.                                                    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FReal, TLC, Json
S == INSTANCE Statistics
CONSTANTS MaxN, Values, Shift, Tour
VARIABLES x, hist

RECURSIVE Vectors(_)
Vectors(n) == IF n = 0 THEN {<<>>} ELSE {Append(v, a) : v \in Vectors(n - 1), a \in Values}
Init == x \in UNION {Vectors(n) : n \in 1..MaxN} /\ hist = <<>>
Next == FALSE /\ UNCHANGED <<x, hist>>
Emit == Tour => PrintT("GEN " \o ToJson([k \in 1..Len(x) |-> x[k] - Shift]))

v == TLCEval([k \in 1..Len(x) |-> R(x[k] - Shift)])
N == Len(x)
eps == RTen(-9)
Le(a, b) == RLe(a, RAdd(b, eps))
Turned == TLCEval([k \in 1..N |-> v[(k % N) + 1]])
Between == Le(S!Minimum(v), S!Mean(v)) /\ Le(S!Mean(v), S!Maximum(v)) /\ Le(S!Minimum(v), S!Median(v)) /\ Le(S!Median(v), S!Maximum(v))
Koenig == RWithin(S!Variance(v), RSub(S!MomentAbout(v, 2, R(0)), RMul(S!Mean(v), S!Mean(v))), eps)
Symmetric == RWithin(S!Median(v), S!Median(Turned), eps) /\ RWithin(S!Moment(v, 3), S!Moment(Turned, 3), eps)
Centred == RWithin(S!Moment(v, 1), 0, eps) /\ RWithin(S!Moment(v, 0), 1, eps)
\* the median minimises the sum of distances over the samples, the mean that of squares
Least == \A k \in 1..N :
            /\ Le(RSum([j \in 1..N |-> RAbs(RSub(v[j], S!Median(v)))]), RSum([j \in 1..N |-> RAbs(RSub(v[j], v[k]))]))
            /\ Le(S!Variance(v), S!MomentAbout(v, 2, v[k]))
\* |mean - median| is at most a standard deviation
Hotelling == Le(RAbs(RSub(S!Mean(v), S!Median(v))), S!Deviation(v))
Pearson == RLt(0, S!Variance(v)) => Le(RAdd(1, RMul(S!Skewness(v), S!Skewness(v))), S!Kurtosis(v))
Norms == Le(S!Maximum(S!Magnitudes(v)), S!Norm(v)) /\ Le(S!Norm(v), RMul(RSqrt(R(N)), S!Maximum(S!Magnitudes(v))))
Positive == RLt(0, S!Minimum(v))
Means == Positive =>
           /\ Le(S!HarmonicMean(v), S!GeometricMean(v)) /\ Le(S!GeometricMean(v), S!Mean(v)) /\ Le(S!Mean(v), S!PowerMean(v, 2))
           /\ Le(S!PowerMean(v, 2), S!PowerMean(v, 3)) /\ Le(S!PowerMean(v, 3), S!Maximum(v))
           /\ RWithin(S!PowerMean(v, -1), S!HarmonicMean(v), eps) /\ RWithin(S!PowerMean(v, 1), S!Mean(v), eps)
================================================================================
