-------------------------------- MODULE RandomModel --------------------------------
(***************************************************************************)
(* Distribution functions are distribution functions, the normal one is    *)
(* the integral of its density, noise filters are linear and keep within   *)
(* their bounds, and Perlin noise is continuous, zero at the whole         *)
(* positions and within [-1, 1].  Every short sequence of inputs.          *)
(***************************************************************************)
EXTENDS Random, FiniteSets, Json
CONSTANTS MaxLen, Tour
VARIABLES w, g
vars == <<w, g>>

Distributions ==
  { <<"uniform", <<R(-1), R(3)>>>>, <<"whole", <<R(-2), R(2)>>>>, <<"constant", <<R(1)>>>>, <<"bernoulli", <<RRat(1, 4)>>>>, <<"bernoulli", <<R(0)>>>>,
    <<"binomial", <<R(5), RRat(1, 3)>>>>, <<"geometric", <<RRat(1, 3)>>>>, <<"poisson", <<R(2)>>>>, <<"exponential", <<R(2)>>>>, <<"gamma", <<R(3), RRat(1, 2)>>>>,
    <<"weibull", <<R(2), R(1)>>>>, <<"extreme", <<R(1), R(2)>>>>, <<"normal", <<R(1), R(2)>>>>, <<"lognormal", <<R(0), R(1)>>>>, <<"chi_squared", <<R(1)>>>>,
    <<"chi_squared", <<R(4)>>>>, <<"cauchy", <<R(0), R(1)>>>>, <<"fisher", <<R(2), R(5)>>>>, <<"fisher", <<R(5), R(2)>>>>, <<"student", <<R(1)>>>>,
    <<"student", <<R(2)>>>>, <<"student", <<R(3)>>>>, <<"discrete", <<R(1), R(0), R(2)>>>>, <<"steps", <<R(1), R(3)>>>>, <<"lines", <<R(1), R(0), R(3)>>>> }
Points == <<R(0), R(1), R(3)>>
F(d, q) == Cdf(d[1], d[2], Points, q)
Grid == -12..24
Monotone == w # <<>> \/ \A d \in Distributions : \A k \in Grid :
              /\ RLe(0, F(d, RRat(k, 3))) /\ RLe(F(d, RRat(k, 3)), 1)
              /\ RLe(F(d, RRat(k, 3)), RAdd(F(d, RRat(k + 1, 3)), RTen(-14)))
Ends == w # <<>> \/ \A d \in Distributions : RNear(F(d, R(3000000)), 1, RTen(-5)) /\ RWithin(F(d, R(-3000000)), 0, RTen(-5))
\* the derivative of the normal distribution function is its density
NormalLaw == w # <<>> \/ (/\ REq(Phi(0), Half)
                          /\ \A k \in -40..40 : LET z == RRat(k, 8) h == RTen(-3) IN
                               RWithin(RDiv(RSub(Phi(RAdd(z, h)), Phi(RSub(z, h))), RMul(2, h)), Bell(z), RTen(-6))
                          /\ \A k \in 0..40 : RNear(RAdd(Phi(RRat(k, 8)), Phi(RRat(-k, 8))), 1, RTen(-13)))
\* relatives among the distributions
Same == w # <<>> \/ \A k \in 1..20 : LET q == RRat(k, 3) IN
          /\ RNear(Cdf("gamma", <<R(1), R(2)>>, <<>>, q), Cdf("exponential", <<Half>>, <<>>, q), RTen(-13))
          /\ RNear(Cdf("weibull", <<R(1), R(2)>>, <<>>, q), Cdf("exponential", <<Half>>, <<>>, q), RTen(-13))
          /\ RNear(Cdf("student", <<R(1)>>, <<>>, q), Cdf("cauchy", <<R(0), R(1)>>, <<>>, q), RTen(-13))
          /\ RNear(Cdf("fisher", <<R(2), R(2)>>, <<>>, q), RDiv(q, RAdd(1, q)), RTen(-13))
          /\ RNear(Cdf("binomial", <<R(1), RRat(1, 4)>>, <<>>, q), Cdf("bernoulli", <<RRat(1, 4)>>, <<>>, q), RTen(-13))
          /\ RNear(Cdf("discrete", <<R(1), R(1), R(1)>>, <<>>, q), Cdf("whole", <<R(0), R(2)>>, <<>>, q), RTen(-13))
          /\ RNear(Cdf("lines", <<R(2), R(2), R(2)>>, Points, q), Cdf("uniform", <<R(0), R(3)>>, <<>>, q), RTen(-13))
\* the counts a generator must not give: a stuck one, one that never gives the ends, one that repeats every number
Biting == w # <<>> \/ LET e == [op |-> "draws", d |-> "uniform", p |-> <<R(0), R(1)>>, x |-> <<>>, n |-> 2000, q |-> <<Half>>] IN
            /\ Draws([le |-> <<1000>>, pairs |-> <<500>>] @@ e)
            /\ ~Draws([le |-> <<1300>>, pairs |-> <<500>>] @@ e)
            /\ ~Draws([le |-> <<1000>>, pairs |-> <<999>>] @@ e)
            /\ ~Draws([le |-> <<1>>, pairs |-> <<0>>] @@ [q |-> <<RRat(-1, 100)>>] @@ e)

Inputs == {R(-1), R(0), R(1), RRat(3, 2)}
Kinds == {"brown", "pink"}
Init == w = <<>> /\ g = [k \in Kinds |-> Quiet(k)]
Next == /\ Len(w) < MaxLen
        /\ \E x \in Inputs : /\ w' = Append(w, x)
                             /\ g' = [k \in Kinds |-> [kind |-> k, s |-> NoiseStep(g[k], x).s]]
Spec == Init /\ [][Next]_vars
\* step by step or all at once
Whole == \A k \in Kinds : Through(Quiet(k), w, 1).g = g[k]
Y(k, v) == Through(Quiet(k), TLCEval(v), 1).y
Linear == \A k \in Kinds :
            LET y == TLCEval(Y(k, w)) z == TLCEval(Y(k, Reverse(w)))
            IN /\ RSeqNear(Y(k, [j \in 1..Len(w) |-> RMul(2, w[j])]), [j \in 1..Len(w) |-> RMul(2, y[j])], RTen(-13))
               /\ RSeqNear([j \in 1..Len(w) |-> RAdd(y[j], z[j])], Y(k, [j \in 1..Len(w) |-> RAdd(w[j], Reverse(w)[j])]), RTen(-13))
Largest == RMax(RRat(3, 2), 1)
Bounded == LET y == TLCEval(Y("brown", w)) IN \A j \in 1..Len(w) : RLe(RAbs(y[j]), RMul(RRat(7, 2), Largest))
PerlinLaws == w # <<>> \/ (/\ {Table[k] : k \in 1..Len(Table)} = (0..255) /\ Len(Table) = 256
                           /\ \A n \in 0..511 : /\ REq(Perlin(n), 0)
                                                /\ \A k \in 0..7 : RLe(RAbs(Perlin(RAdd(n, RRat(k, 8)))), 1)
                                                /\ RWithin(Perlin(RSub(n + 1, RTen(-6))), 0, RTen(-5)))
Emit == Tour => PrintT("GEN " \o ToJson(<<w>>))
=====================================================================================
