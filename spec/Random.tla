---------------------------------- MODULE Random ----------------------------------
(***************************************************************************)
(* Random numbers and noise.                                               *)
(*                                                                         *)
(* What a generator draws is not determined, its distribution is: of n     *)
(* draws the number that do not pass q is binomial with the distribution   *)
(* function's value at q, and two successive draws are independent.  A     *)
(* count is accepted within eight standard deviations (no correct          *)
(* generator is ever seen beyond), and exactly where the distribution      *)
(* function is 0 or 1: outside the support there is nothing.               *)
(*                                                                         *)
(* Brown and pink noise are filters of white noise, and Perlin noise is a  *)
(* function of a random position: these are machines, with state.          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FReal, TLC

\* ---- distribution functions -----------------------------------------------------------------------------
Half == RRat(1, 2)
Clip01(x) == RMax(0, RMin(1, x))
\* the normal distribution: the integral of its density, by Simpson's rule (within 1e-7)
Bell(z) == RDiv(RExp(RDiv(RMul(z, z), -2)), RSqrt(RMul(2, RPi)))
Phi(z) == IF RLt(7, z) THEN 1 ELSE IF RLt(z, -7) THEN 0
          ELSE LET h == TLCEval(RDiv(z, 200)) IN
               Clip01(RAdd(Half, RMul(RDiv(h, 3), RSum([k \in 1..201 |-> RMul(IF k \in {1, 201} THEN 1 ELSE IF (k % 2) = 0 THEN 4 ELSE 2, Bell(RMul(h, k - 1)))]))))
RECURSIVE Term(_, _)
Term(m, k) == IF k = 0 THEN 1 ELSE RDiv(RMul(Term(m, k - 1), m), k)      \* m^k / k!
PoissonTo(m, k) == IF k < 0 THEN 0 ELSE IF RLt(RAdd(RMul(4, m), 100), k) THEN 1 ELSE RMul(RExp(RNeg(m)), RSum([j \in 1..(k + 1) |-> Term(m, j - 1)]))
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 THEN 1 ELSE RDiv(RMul(Choose(n, k - 1), n - k + 1), k)
BinomialTo(n, p, k) == IF k < 0 THEN 0 ELSE IF k >= n THEN 1
                       ELSE RSum([j \in 1..(k + 1) |-> RMul(Choose(n, j - 1), RMul(RPow(p, j - 1), RPow(RSub(1, p), n - j + 1)))])
\* the sum of k exponentials of mean s
Erlang(k, s, x) == IF RLe(x, 0) THEN 0 ELSE RSub(1, PoissonTo(RDiv(x, s), k - 1))
Trunc(x) == RToInt(RFloor(x))
RECURSIVE Area(_, _, _, _)
Area(x, w, q, k) == IF k >= Len(x) \/ RLe(q, x[k]) THEN 0          \* under the line through the points (x, w), up to q
                    ELSE LET r == RMin(q, x[k + 1])
                             h == RAdd(w[k], RMul(RSub(w[k + 1], w[k]), RDiv(RSub(r, x[k]), RSub(x[k + 1], x[k]))))
                         IN RAdd(RMul(RSub(r, x[k]), RDiv(RAdd(w[k], h), 2)), Area(x, w, q, k + 1))
\* d: distribution, p: its parameters, x: points, q: where
Cdf(d, p, x, q) ==
  CASE d = "uniform" -> Clip01(RDiv(RSub(q, p[1]), RSub(p[2], p[1])))
    [] d = "whole" -> Clip01(RDiv(RAdd(RSub(RFloor(q), p[1]), 1), RAdd(RSub(p[2], p[1]), 1)))
    [] d = "constant" -> IF RLt(q, p[1]) THEN 0 ELSE 1
    [] d = "bernoulli" -> IF RLt(q, 0) THEN 0 ELSE IF RLt(q, 1) THEN RSub(1, p[1]) ELSE 1
    [] d = "binomial" -> BinomialTo(RToInt(p[1]), p[2], Trunc(q))
    [] d = "geometric" -> IF RLt(q, 0) THEN 0 ELSE RSub(1, RPow(RSub(1, p[1]), Trunc(q) + 1))
    [] d = "poisson" -> PoissonTo(p[1], Trunc(q))
    [] d = "exponential" -> IF RLe(q, 0) THEN 0 ELSE RSub(1, RExp(RNeg(RMul(p[1], q))))
    [] d = "gamma" -> Erlang(RToInt(p[1]), p[2], q)
    [] d = "weibull" -> IF RLe(q, 0) THEN 0 ELSE RSub(1, RExp(RNeg(RPow(RDiv(q, p[2]), p[1]))))
    [] d = "extreme" -> RExp(RNeg(RExp(RDiv(RSub(p[1], q), p[2]))))
    [] d = "normal" -> Phi(RDiv(RSub(q, p[1]), p[2]))
    [] d = "lognormal" -> IF RLe(q, 0) THEN 0 ELSE Phi(RDiv(RSub(RLn(q), p[1]), p[2]))
    [] d = "chi_squared" -> IF RLe(q, 0) THEN 0 ELSE IF REq(p[1], 1) THEN RSub(RMul(2, Phi(RSqrt(q))), 1) ELSE Erlang(RToInt(p[1]) \div 2, 2, q)
    [] d = "cauchy" -> RAdd(Half, RDiv(RAtan(RDiv(RSub(q, p[1]), p[2])), RPi))
    [] d = "fisher" -> IF RLe(q, 0) THEN 0      \* one of the degrees of freedom is two
                       ELSE IF REq(p[1], 2) THEN RSub(1, RPow(RAdd(1, RDiv(RMul(2, q), p[2])), RDiv(p[2], -2)))
                       ELSE RPow(RAdd(1, RDiv(2, RMul(p[1], q))), RDiv(p[1], -2))
    [] d = "student" -> CASE REq(p[1], 1) -> RAdd(Half, RDiv(RAtan(q), RPi))
                          [] REq(p[1], 2) -> RAdd(Half, RDiv(q, RMul(2, RSqrt(RAdd(2, RMul(q, q))))))
                          [] OTHER -> LET t == RDiv(q, RSqrt(3)) IN RAdd(Half, RDiv(RAdd(RDiv(t, RAdd(1, RMul(t, t))), RAtan(t)), RPi))
    [] d = "discrete" -> IF RLt(q, 0) THEN 0 ELSE RDiv(RSum(SubSeq(p, 1, IF RLt(q, Len(p)) THEN Trunc(q) + 1 ELSE Len(p))), RSum(p))
    [] d = "steps" -> RDiv(RSum([k \in 1..Len(p) |-> RMul(p[k], Clip01(RDiv(RSub(q, x[k]), RSub(x[k + 1], x[k]))))]), RSum(p))
    [] d = "lines" -> RDiv(Area(x, p, q, 1), Area(x, p, x[Len(x)], 1))

\* n independent trials of probability f: the number of successes
Likely(n, f, var, count) == IF RLe(f, 0) THEN count = 0 ELSE IF RLe(1, f) THEN count = n
                            ELSE RLe(RAbs(RSub(count, RMul(n, f))), RAdd(RMul(8, RSqrt(RMul(n, var))), 12))
\* pairs of successive draws that both do not pass
PairVar(f) == LET g == RMul(f, f) IN RAdd(RMul(g, RSub(1, g)), RMul(2, RMul(g, RMul(f, RSub(1, f)))))
Draws(e) == \A k \in 1..Len(e.q) :
              LET f == TLCEval(Cdf(e.d, e.p, e.x, e.q[k])) IN
              /\ Likely(e.n, f, RMul(f, RSub(1, f)), e.le[k])
              /\ Likely(e.n - 1, RMul(f, f), PairVar(f), e.pairs[k])

\* ---- noise as a filter of white noise -------------------------------------------------------------------
BrownStep(s, w) == LET l == RDiv(RAdd(s[1], RMul(RRat(2, 100), w)), RRat(102, 100)) IN [s |-> <<l>>, y |-> RMul(RRat(7, 2), l)]
\* one pole each, and a delay (Kellet's filter)
Poles == <<RRat(99886, 100000), RRat(99332, 100000), RRat(969, 1000), RRat(8665, 10000), RRat(55, 100), RRat(-7616, 10000)>>
Gains == <<RRat(555179, 10000000), RRat(750759, 10000000), RRat(1538520, 10000000), RRat(3104856, 10000000), RRat(5329522, 10000000), RRat(-168980, 10000000)>>
PinkStep(s, w) ==
  LET b == TLCEval([k \in 1..6 |-> RAdd(RMul(Poles[k], s[k]), RMul(Gains[k], w))])
  IN [s |-> b \o <<RMul(RRat(115926, 1000000), w)>>, y |-> RMul(RRat(11, 100), RAdd(RSum(b), RAdd(s[7], RMul(RRat(5362, 10000), w))))]
Fade(t) == RMul(RMul(t, RMul(t, t)), RAdd(RMul(t, RSub(RMul(t, 6), 15)), 10))
Table == <<151, 160, 137, 91, 90, 15, 131, 13, 201, 95, 96, 53, 194, 233, 7, 225, 140, 36, 103, 30, 69, 142, 8, 99, 37, 240, 21, 10, 23,
  190, 6, 148, 247, 120, 234, 75, 0, 26, 197, 62, 94, 252, 219, 203, 117, 35, 11, 32, 57, 177, 33, 88, 237, 149, 56, 87, 174, 20, 125, 136, 171, 168, 68, 175,
  74, 165, 71, 134, 139, 48, 27, 166, 77, 146, 158, 231, 83, 111, 229, 122, 60, 211, 133, 230, 220, 105, 92, 41, 55, 46, 245, 40, 244, 102, 143, 54,
  65, 25, 63, 161, 1, 216, 80, 73, 209, 76, 132, 187, 208, 89, 18, 169, 200, 196, 135, 130, 116, 188, 159, 86, 164, 100, 109, 198, 173, 186, 3, 64,
  52, 217, 226, 250, 124, 123, 5, 202, 38, 147, 118, 126, 255, 82, 85, 212, 207, 206, 59, 227, 47, 16, 58, 17, 182, 189, 28, 42, 223, 183, 170, 213,
  119, 248, 152, 2, 44, 154, 163, 70, 221, 153, 101, 155, 167, 43, 172, 9, 129, 22, 39, 253, 19, 98, 108, 110, 79, 113, 224, 232, 178, 185, 112, 104,
  218, 246, 97, 228, 251, 34, 242, 193, 238, 210, 144, 12, 191, 179, 162, 241, 81, 51, 145, 235, 249, 14, 239, 107, 49, 192, 214, 31, 181, 199, 106, 157,
  184, 84, 204, 176, 115, 121, 50, 45, 127, 4, 150, 254, 138, 236, 205, 93, 222, 114, 67, 29, 24, 72, 243, 141, 128, 195, 78, 66, 215, 61, 156, 180>>
Slope(n, t) == IF (Table[(n % 256) + 1] % 2) = 0 THEN t ELSE RNeg(t)
Perlin(x) == LET n == Trunc(x) t == RSub(x, n) a == Slope(n, t) b == Slope(n + 1, RSub(t, 1)) IN RMul(2, RAdd(a, RMul(Fade(t), RSub(b, a))))

\* ---- machines: two noise generators ----------------------------------------------------------------------
Quiet(kind) == [kind |-> kind, s |-> CASE kind = "brown" -> <<0>> [] kind = "pink" -> <<0, 0, 0, 0, 0, 0, 0>> [] OTHER -> << >>]
NoiseStep(g, w) == CASE g.kind = "brown" -> BrownStep(g.s, w) [] g.kind = "pink" -> PinkStep(g.s, w) [] OTHER -> [s |-> << >>, y |-> Perlin(w)]
Tol(g, t, w) == RMul(RMax(IF g.kind = "perlin" THEN 1 ELSE RTen(-30), RSum([k \in 1..Len(w) |-> RAbs(w[k])])), IF t = "f" THEN IF g.kind = "perlin" THEN RTen(-5) ELSE RTen(-5) ELSE RTen(-11))
\* what a generator gives for a sequence of inputs
RECURSIVE Through(_, _, _)
Through(g, w, k) == IF k > Len(w) THEN [g |-> g, y |-> << >>]
                    ELSE LET r == TLCEval(NoiseStep(g, w[k])) rest == Through([g EXCEPT !.s = r.s], w, k + 1)
                         IN [g |-> rest.g, y |-> <<r.y>> \o rest.y]

RandomStart == [a |-> Quiet("none"), b |-> Quiet("none")]
RandomEval(st, e) ==
  CASE e.op = "draws" -> [st |-> st, ok |-> Draws(e) /\ e.whole]
    [] e.op = "noise" -> [st |-> [st EXCEPT ![e.s] = Quiet(e.kind)], ok |-> TRUE]
    [] e.op = "copy" -> [st |-> [st EXCEPT ![e.s] = st[IF e.s = "a" THEN "b" ELSE "a"]], ok |-> TRUE]
    [] e.op = "run" -> LET r == TLCEval(Through(st[e.s], e.w, 1)) tol == Tol(st[e.s], e.t, e.w) IN
         [st |-> [st EXCEPT ![e.s] = r.g], ok |-> Len(e.y) = Len(e.w) /\ \A k \in 1..Len(e.y) : RWithin(e.y[k], r.y[k], tol)]
=====================================================================================
