----------------------------- MODULE FeaturesModel -----------------------------
(* Ranges and invariances of the descriptors on every small spectrum. *)
EXTENDS Naturals, Integers, Sequences, FReal, TLC, Json
S == INSTANCE Features
CONSTANTS MaxN, Values, Tour
VARIABLES x, hist

RECURSIVE Vectors(_)
Vectors(n) == IF n = 0 THEN {<<>>} ELSE {Append(v, a) : v \in Vectors(n - 1), a \in Values}
Init == x \in {w \in UNION {Vectors(n) : n \in 2..MaxN} : \E k \in 1..Len(w) : w[k] > 0} /\ hist = <<>>
Next == FALSE /\ UNCHANGED <<x, hist>>
Emit == Tour => PrintT("GEN " \o ToJson(x))

v == TLCEval([k \in 1..Len(x) |-> R(x[k])])
N == Len(x)
eps == RTen(-9)
Le(a, b) == RLe(a, RAdd(b, eps))
Within(a, l, h) == Le(l, a) /\ Le(a, h)
Twice == TLCEval([k \in 1..N |-> RMul(2, v[k])])
f == TLCEval([k \in 1..N |-> RRat(k * k, 1)])
Rev == TLCEval([k \in 1..N |-> v[N + 1 - k]])
Ranges == /\ Within(S!Centroid(v), 0, N - 1) /\ Within(S!SpreadOf(v), 0, RDiv(N - 1, 2)) /\ Within(S!Crest(v), RRat(1, N), 1)
          /\ Within(S!Entropy(S!Shares(v)), 0, 1) /\ Within(S!Flatness(v), 0, 1) /\ Within(S!Flux("euclidean", v, Rev), 0, 2)
          /\ Within(S!Variation(v, Rev), 0, 1) /\ Within(S!WeightedCentroid(v, f), 1, N * N)
\* descriptors ignore the level of the spectrum
Scaleless == /\ RWithin(S!Centroid(v), S!Centroid(Twice), eps) /\ RWithin(S!SpreadOf(v), S!SpreadOf(Twice), eps) /\ RWithin(S!Crest(v), S!Crest(Twice), eps)
             /\ RWithin(S!Flatness(v), S!Flatness(Twice), eps) /\ RWithin(S!Flux("manhattan", v, Twice), 0, eps) /\ RWithin(S!Variation(v, Twice), 0, eps)
             /\ RWithin(S!Slope(v, f), S!Slope(Twice, f), eps)
Mirror == RWithin(S!Centroid(Rev), RSub(N - 1, S!Centroid(v)), eps) /\ RWithin(S!SpreadOf(Rev), S!SpreadOf(v), eps)
          /\ RWithin(S!Flux("euclidean", v, Rev), S!Flux("euclidean", Rev, v), eps)
\* the regression line through the points has that slope: it is the covariance over the variance
Line == LET mf == S!Mean(f)
            cov == RSub(RDiv(RDot(v, f), N), RMul(S!Mean(v), mf))
        IN RWithin(RMul(S!Slope(v, f), RSum(v)), RDiv(cov, S!Variance(f)), eps)
Rolls == \A p \in {R(0), RRat(1, 4), RRat(1, 2), R(1)} :
           LET k == S!RolloffExact(v, p)
           IN k \in S!Rolloffs(v, p) /\ RLe(S!Cumulated(v, k - 1), RMul(p, S!Cumulated(v, N)))
================================================================================
