-------------------------------- MODULE Biquad --------------------------------
(***************************************************************************)
(* A second-order recursive section and cascades of them.                  *)
(* A section is its six coefficients and its direct-form memory: the last  *)
(* two inputs and outputs.  hi bounds the magnitudes met so far and scales *)
(* the tolerance of comparisons.                                           *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FReal

Coefs(a0, a1, a2, b0, b1, b2) == [a0 |-> a0, a1 |-> a1, a2 |-> a2, b0 |-> b0, b1 |-> b1, b2 |-> b2]
AtRest(c) == [c |-> c, x1 |-> R(0), x2 |-> R(0), y1 |-> R(0), y2 |-> R(0), hi |-> R(0)]
Identity == Coefs(R(1), R(0), R(0), R(1), R(0), R(0))

\* Constructors
FromCoefs(a0, a1, a2, b0, b1, b2) ==
  Coefs(R(1), RDiv(a1, a0), RDiv(a2, a0), RDiv(b0, a0), RDiv(b1, a0), RDiv(b2, a0))
FromPoleZero(p, z) == Coefs(R(1), RNeg(p), R(0), R(1), RNeg(z), R(0))
\* (1 - u z^-1)(1 - v z^-1) for a conjugate pair (u = re + i im) or two real numbers
PairC1(re1, im1, re2) == IF REq(im1, 0) THEN RNeg(RAdd(re1, re2)) ELSE RMul(-2, re1)
PairC2(re1, im1, re2) == IF REq(im1, 0) THEN RMul(re1, re2) ELSE RAdd(RMul(re1, re1), RMul(im1, im1))
FromPairs(p, z) == Coefs(R(1), PairC1(p[1], p[2], p[3]), PairC2(p[1], p[2], p[3]),
                         R(1), PairC1(z[1], z[2], z[3]), PairC2(z[1], z[2], z[3]))

\* a0 y[n] = b0 x[n] + b1 x[n-1] + b2 x[n-2] - a1 y[n-1] - a2 y[n-2]
OutputOf(f, x) ==
  LET c == f.c
  IN RDiv(RSub(RAdd(RAdd(RMul(c.b0, x), RMul(c.b1, f.x1)), RMul(c.b2, f.x2)),
               RAdd(RMul(c.a1, f.y1), RMul(c.a2, f.y2))), c.a0)
\* what the terms of that sum can amount to
SizeOf(f, x) ==
  LET c == f.c
  IN RDiv(RAdd(RAdd(RMul(RAbs(c.b0), RAbs(x)), RAdd(RMul(RAbs(c.b1), RAbs(f.x1)), RMul(RAbs(c.b2), RAbs(f.x2)))),
               RAdd(RMul(RAbs(c.a1), RAbs(f.y1)), RMul(RAbs(c.a2), RAbs(f.y2)))), RAbs(c.a0))
Step(f, x) == LET y == OutputOf(f, x)
              IN [f EXCEPT !.x1 = x, !.x2 = f.x1, !.y1 = y, !.y2 = f.y1, !.hi = RMax(@, RMax(SizeOf(f, x), RAbs(y)))]
Rest(f) == AtRest(f.c)

\* Both poles strictly inside the unit circle (the triangle criterion; BiquadModel relates it to the poles).
Stable(c) == LET a1 == RDiv(c.a1, c.a0)
                 a2 == RDiv(c.a2, c.a0)
             IN RLt(RAbs(a2), 1) /\ RLt(RAbs(a1), RAdd(1, a2))

Tol == RTen(-8)
Close(y, f) == RWithin(y, f.y1, RMul(Tol, RAdd(f.hi, RTen(-6))))

RECURSIVE Run(_, _)
Run(f, xs) == IF xs = <<>> THEN f ELSE Run(Step(f, Head(xs)), Tail(xs))
RECURSIVE Follows(_, _, _)
Follows(f, xs, ys) == IF xs = <<>> THEN ys = <<>>
                      ELSE ys # <<>> /\ LET g == Step(f, Head(xs)) IN Close(Head(ys), g) /\ Follows(g, Tail(xs), Tail(ys))

CoefEps == RTen(-11)
Same(o, c) == /\ RNear(o.a0, c.a0, CoefEps) /\ RNear(o.a1, c.a1, CoefEps) /\ RNear(o.a2, c.a2, CoefEps)
              /\ RNear(o.b0, c.b0, CoefEps) /\ RNear(o.b1, c.b1, CoefEps) /\ RNear(o.b2, c.b2, CoefEps)

\* ---- one section ---------------------------------------------------------------------------------------------
BiquadStart == [a |-> AtRest(Identity), b |-> AtRest(Identity)]
SetCoef(c, name, v) ==
  CASE name = "a0" -> [c EXCEPT !.a0 = v] [] name = "a1" -> [c EXCEPT !.a1 = v] [] name = "a2" -> [c EXCEPT !.a2 = v]
    [] name = "b0" -> [c EXCEPT !.b0 = v] [] name = "b1" -> [c EXCEPT !.b1 = v] [] name = "b2" -> [c EXCEPT !.b2 = v]
Made(e) ==
  CASE e.op = "new_default" -> Identity
    [] e.op = "new_coefs" -> FromCoefs(e.a0, e.a1, e.a2, e.b0, e.b1, e.b2)
    [] e.op = "new_pz" -> FromPoleZero(e.p, e.z)
    [] e.op = "new_pz2" -> FromPairs(e.p, e.z)

BiquadEval(st, e) ==
  LET f == st[e.s]
      o == st[IF e.s = "a" THEN "b" ELSE "a"]
      g == CASE e.op \in {"new_default", "new_coefs", "new_pz", "new_pz2"} -> AtRest(Made(e))
             [] e.op = "set" -> AtRest(SetCoef(f.c, e.c, e.v))
             [] e.op = "reset" -> Rest(f)
             [] e.op = "tick" -> Step(f, e.x)
             [] e.op = "filter" -> Run(f, e.x)
             [] e.op = "copy" -> o
  IN [ st |-> [st EXCEPT ![e.s] = g],
       ok |-> /\ Same(e.coefs, g.c)
              /\ e.stable = Stable(g.c)
              /\ e.bool = e.stable
              /\ (e.op = "tick" => Close(e.ret, g))
              /\ (e.op = "filter" => Follows(f, e.x, e.ret) /\ e.intact) ]

\* ---- a cascade: the output of each section is the input of the next one ------------------------------------------
RECURSIVE StepAll(_, _)
StepAll(q, x) == IF q = <<>> THEN <<>> ELSE LET g == Step(Head(q), x) IN <<g>> \o StepAll(Tail(q), g.y1)
Last(q, x) == IF q = <<>> THEN x ELSE q[Len(q)].y1
\* the largest magnitude met in any section, and how much later sections can enlarge an error: generous product bound
Scale(q) == IF q = <<>> THEN R(1)
            ELSE RAdd(RTen(-6), RSum([k \in 1..Len(q) |-> q[k].hi]))
CloseAll(y, q, x) == IF q = <<>> THEN REq(y, x) ELSE RWithin(y, Last(q, x), RMul(RTen(-7), Scale(q)))
RECURSIVE RunAll(_, _)
RunAll(q, xs) == IF xs = <<>> THEN q ELSE RunAll(StepAll(q, Head(xs)), Tail(xs))
RECURSIVE FollowsAll(_, _, _)
FollowsAll(q, xs, ys) == IF xs = <<>> THEN ys = <<>>
                         ELSE ys # <<>> /\ LET g == StepAll(q, Head(xs)) IN CloseAll(Head(ys), g, Head(xs)) /\ FollowsAll(g, Tail(xs), Tail(ys))

CascadeStart == [cap |-> 0, q |-> <<>>, spare |-> <<>>]
CascadeEval(st, e) ==
  LET q == st.q
      q2 == CASE e.op = "new" -> <<>>
              [] e.op \in {"push_back", "emplace_back"} -> Append(q, Run(AtRest(FromCoefs(e.a0, e.a1, e.a2, e.b0, e.b1, e.b2)), e.warm))
              [] e.op = "tick" -> StepAll(q, e.x)
              [] e.op = "filter" -> RunAll(q, e.x)
              [] e.op = "reset" -> [k \in 1..Len(q) |-> Rest(q[k])]
              [] e.op = "clear" -> <<>>
              [] e.op = "set" -> [q EXCEPT ![e.k + 1] = AtRest(SetCoef(@.c, e.c, e.v))]
              [] e.op = "reset_stage" -> [q EXCEPT ![e.k + 1] = Rest(@)]
              [] e.op = "save" -> q
              [] e.op = "restore" -> st.spare
      cap == IF e.op = "new" THEN e.cap ELSE st.cap
  IN [ st |-> [cap |-> cap, q |-> q2, spare |-> IF e.op = "save" THEN q ELSE IF e.op = "new" THEN <<>> ELSE st.spare],
       ok |-> /\ e.size = Len(q2) /\ e.capacity = cap /\ e.max_size = cap
              /\ Len(e.stages) = Len(q2) /\ \A k \in 1..Len(q2) : Same(e.stages[k], q2[k].c)
              /\ Len(e.iter) = Len(q2) /\ \A k \in 1..Len(q2) : Same(e.iter[k], q2[k].c)
              /\ (e.op = "tick" => CloseAll(e.ret, q2, e.x))
              /\ (e.op = "filter" => FollowsAll(q, e.x, e.ret) /\ e.intact) ]
===============================================================================
