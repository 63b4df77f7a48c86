----------------------------- MODULE TemporalModel -----------------------------
(* Identities of the temporal features on every small vector. *)
EXTENDS Naturals, Integers, Sequences, FReal, TLC, Json
S == INSTANCE Temporal
CONSTANTS MaxN, Values, Shift, Tour
VARIABLES x, hist

RECURSIVE Vectors(_)
Vectors(n) == IF n = 0 THEN {<<>>} ELSE {Append(v, a) : v \in Vectors(n - 1), a \in Values}
Init == x \in UNION {Vectors(n) : n \in 1..MaxN} /\ hist = <<>>
Next == FALSE /\ UNCHANGED <<x, hist>>
Emit == Tour => PrintT("GEN " \o ToJson([k \in 1..Len(x) |-> x[k] - Shift]))

v == TLCEval([k \in 1..Len(x) |-> R(x[k] - Shift)])
N == Len(x)
eps == RTen(-9)
Le(a, b) == RLe(a, RAdd(b, eps))
Neg == TLCEval([k \in 1..N |-> RNeg(v[k])])
Rev == TLCEval([k \in 1..N |-> v[N + 1 - k]])
Energies == RWithin(S!Energy(v), RMul(N, S!Power(v)), eps) /\ RWithin(RMul(S!Rms(v), S!Rms(v)), S!Power(v), eps)
            /\ RWithin(S!Rssq(v), S!Norm(v), eps) /\ Le(RAbs(S!Mean(v)), S!Rms(v)) /\ Le(S!Rms(v), S!Big(v))
\* mean square = variance + squared mean
Steiner == RWithin(S!Power(v), RAdd(S!Variance(v), RMul(S!Mean(v), S!Mean(v))), eps)
Lags == LET a == S!Amdf(v)
            s == S!Asdf(v)
        IN /\ REq(a[1], 0) /\ REq(s[1], 0)
           /\ \A k \in 1..N : Le(RMul(a[k], a[k]), s[k]) /\ Le(0, a[k])
           /\ S!Amdf(Rev) = a
\* the square difference function is the correlation in disguise
Disguise == \A k \in 1..N :
   RWithin(RMul(N, S!Asdf(v)[k]),
           RSub(RAdd(RDot(SubSeq(v, 1, N + 1 - k), SubSeq(v, 1, N + 1 - k)), RDot(SubSeq(v, k, N), SubSeq(v, k, N))),
                RMul(2, RDot(SubSeq(v, 1, N + 1 - k), SubSeq(v, k, N)))), eps)
Rates == N > 1 => /\ RLe(0, S!Azcr(v)) /\ RLe(S!Azcr(v), 1) /\ S!Azcr(Rev) = S!Azcr(v)
                  /\ ((\A k \in 1..N : ~REq(v[k], 0)) => S!Azcr(Neg) = S!Azcr(v))
Durations == RLe(S!Effective(v, R(8), RRat(1, 2)), S!Duration(v, R(8)))
================================================================================
