-------------------------------- MODULE Features --------------------------------
(***************************************************************************)
(* Descriptors of the shape of a non-negative sequence (a magnitude or     *)
(* power spectrum), by definition.  Indices count from zero.               *)
(***************************************************************************)
EXTENDS Statistics

Indices(n) == TLCEval([k \in 1..n |-> R(k - 1)])
WeightedCentroid(x, f) == RDiv(RDot(x, f), RSum(x))
Centroid(x) == WeightedCentroid(x, Indices(Len(x)))
WeightedSpread(x, f) == LET c == TLCEval(WeightedCentroid(x, f))
                        IN RSqrt(RDiv(RDot(x, Mapped(f, LAMBDA v : RMul(RSub(v, c), RSub(v, c)))), RSum(x)))
SpreadOf(x) == WeightedSpread(x, Indices(Len(x)))
Crest(x) == RDiv(Big(x), RSum(Magnitudes(x)))
Decrease(x) == LET n == Len(x)
                   t == SubSeq(x, 2, n)
               IN RDiv(RSum(TLCEval([k \in 1..(n - 1) |-> RDiv(RSub(x[k + 1], x[1]), k)])), RSum(t))
PLogP(p) == IF REq(p, 0) THEN R(0) ELSE RMul(p, RDiv(RLn(p), RLn(R(2))))
Entropy(p) == RDiv(RNeg(RSum(Mapped(p, PLogP))), RDiv(RLn(R(Len(p))), RLn(R(2))))
Shares(x) == LET s == TLCEval(RSum(x)) IN Mapped(x, LAMBDA v : RDiv(v, s))
Flatness(x) == RDiv(GeometricMean(x), Mean(x))
Metric(m, a, b) == CASE m = "manhattan" -> RAbs(RSub(a, b))
                     [] m = "euclidean" -> RMul(RSub(a, b), RSub(a, b))
                     [] m = "logarithmic" -> RLn(RDiv(RAbs(a), RAbs(b)))
Flux(m, x, y) == LET p == Shares(x)
                     q == Shares(y)
                 IN RSum(TLCEval([k \in 1..Len(x) |-> Metric(m, p[k], q[k])]))
Slope(x, f) == LET n == Len(x)
                   sx == RSum(x)
                   sf == RSum(f)
               IN RDiv(RDiv(RSub(RMul(n, RDot(x, f)), RMul(sx, sf)), RSub(RMul(n, RDot(f, f)), RMul(sf, sf))), sx)
Variation(x, y) == RSub(1, RDiv(RDot(x, y), RMul(Norm(x), Norm(y))))
Irregularity(x) == LET n == Len(x)
                       d == TLCEval([k \in 1..(n - 1) |-> RSub(x[k + 1], x[k])])
                       h == SubSeq(x, 1, n - 1)
                   IN RDiv(RDot(d, d), RDot(h, h))
\* The share of the indices before the first one whose cumulated energy exceeds the percentage (the last one if none does).
\* Near equality rounding decides, hence a set of indices.
Cumulated(x, k) == LET h == SubSeq(x, 1, k) IN RDot(h, h)
RolloffEdge == RTen(-6)
Rolloffs(x, p) ==
  LET n == Len(x)
      E == Cumulated(x, n)
      C == TLCEval([k \in 1..n |-> Cumulated(x, k)])
      surely(k) == RLt(RMul(RAdd(p, RolloffEdge), E), C[k])
      maybe(k) == RLt(RMul(RSub(p, RolloffEdge), E), C[k])
  IN {k \in 1..n : (k = n \/ maybe(k)) /\ \A j \in 1..(k - 1) : ~surely(j)}
RolloffExact(x, p) ==
  LET n == Len(x)
      S == {k \in 1..n : RLt(RMul(p, Cumulated(x, n)), Cumulated(x, k))}
  IN IF S = {} THEN n ELSE CHOOSE k \in S : \A j \in S : k <= j

\* ---- conformance ------------------------------------------------------------------------------------------------
FeaturesStart == 0
FeaturesEval(st, e) ==
  LET x == e.x
      N == Len(x)
      Cl(want, s) == Close(e, e.ret, want, RMul(8, s))
      F == Big(e.f)
      Cond == RDiv(RSum(Magnitudes(x)), RAbs(RSum(x)))      \* cancellation in a sum with signs
  IN [ st |-> st,
       ok |-> CASE e.op = "centroid" -> Cl(Centroid(x), RMul(N, RMul(Cond, Cond)))
                [] e.op \in {"weighted_centroid", "s_centroid"} -> Cl(WeightedCentroid(x, e.f), RMul(F, RMul(Cond, Cond)))
                [] e.op = "spread" -> RLe(0, e.ret) /\ Close(e, RMul(e.ret, e.ret), LET s == SpreadOf(x) IN RMul(s, s), 8 * N * N)
                [] e.op \in {"weighted_spread", "s_spread"} ->
                     RLe(0, e.ret) /\ Close(e, RMul(e.ret, e.ret), LET s == WeightedSpread(x, e.f) IN RMul(s, s), RMul(8, RMul(F, F)))
                [] e.op \in {"crest", "s_crest"} -> Cl(Crest(x), R(1))
                [] e.op \in {"decrease", "s_decrease"} -> Cl(Decrease(x), RMul(RAdd(1, RDiv(x[1], RSum(SubSeq(x, 2, N)))), N))
                [] e.op = "entropy" -> Cl(Entropy(x), R(1))
                [] e.op = "s_entropy" -> Cl(Entropy(Shares(x)), R(1))
                [] e.op \in {"flatness", "s_flatness"} -> Cl(Flatness(x), R(16))
                [] e.op = "flux" -> Cl(Flux(e.m, x, e.y), R(16))
                [] e.op = "s_flux" -> Cl(Flux("euclidean", x, e.y), R(1))
                [] e.op \in {"slope", "s_slope"} -> LET d == RSub(RMul(N, RDot(e.f, e.f)), RMul(RSum(e.f), RSum(e.f)))
                                                    IN Cl(Slope(x, e.f), RDiv(RMul(N * N, F), d)) 
                [] e.op \in {"variation", "s_variation"} -> Cl(Variation(x, e.y), R(2))
                [] e.op = "irregularity" -> LET h == SubSeq(x, 1, N - 1) IN Cl(Irregularity(x), RDiv(RMul(4 * N, RMul(Big(x), Big(x))), RDot(h, h)))
                [] e.op \in {"rolloff", "s_rolloff"} -> \E k \in (IF "exact" \in DOMAIN e THEN {RolloffExact(x, e.p)} ELSE Rolloffs(x, e.p)) :
                                                          RWithin(e.ret, RRat(k - 1, N), RTen(-6))
                [] e.op = "s_skewness" -> Close(e, e.ret, Skewness(x), ShapeScale(e, 3))
                [] e.op = "s_kurtosis" -> Close(e, e.ret, Kurtosis(x), ShapeScale(e, 4)) ]
===============================================================================
