--------------------------------- MODULE Arrays ---------------------------------
(***************************************************************************)
(* Element-wise and reshaping operations, searches, and rows of equally    *)
(* spaced points.  A range is a sequence; an operation writes exactly the  *)
(* elements of its destination and nothing else.                           *)
(***************************************************************************)
EXTENDS Statistics

Up(v) == RNeg(RFloor(RNeg(v)))
Towards0(v) == IF RLt(v, 0) THEN Up(v) ELSE RFloor(v)
\* nearest, halves away from zero
Nearest(v) == LET a == RAbs(v)
                  f == RFloor(a)
                  r == IF RLe(RRat(1, 2), RSub(a, f)) THEN RAdd(f, 1) ELSE f
              IN IF RLt(v, 0) THEN RNeg(r) ELSE r
Clip(v, lo, hi) == IF RLt(v, lo) THEN lo ELSE IF RLt(hi, v) THEN hi ELSE v
Differences(x) == TLCEval([k \in 1..Len(x) |-> IF k = 1 THEN x[1] ELSE RSub(x[k], x[k - 1])])
Padded(x, n) == x \o [k \in 1..(n - Len(x)) |-> R(0)]
MeanSquare(x) == RDiv(RDot(x, x), Len(x))
Points(a, b, n) == TLCEval([k \in 1..n |-> IF k = 1 THEN a ELSE RAdd(a, RDiv(RMul(k - 1, RSub(b, a)), n - 1))])
\* places count from zero; "not found" is the end
Find(x, v) == LET S == {k \in 1..Len(x) : REq(x[k], v)} IN IF S = {} THEN Len(x) ELSE (CHOOSE k \in S : \A j \in S : k <= j) - 1
Ascending(x) == \A k \in 1..(Len(x) - 1) : RLe(x[k], x[k + 1])
Same(x, y, p(_, _)) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : p(x[k], y[k])

\* ---- conformance ------------------------------------------------------------------------------------------------
ArraysStart == 0
Single(e) == "t" \in DOMAIN e /\ e.t = "f"
Exactly(e, want) == Len(e.r) = Len(want) /\ \A k \in 1..Len(want) : REq(e.r[k], want[k])
\* to rounding, relative to each element
Rounded(e, want) == Len(e.r) = Len(want) /\ \A k \in 1..Len(want) :
                      RIsFinite(e.r[k]) /\ RWithin(e.r[k], want[k], RMul(IF Single(e) THEN RTen(-6) ELSE RTen(-14), RAbs(want[k])))
WithinAll(e, want, s) == Len(e.r) = Len(want) /\ \A k \in 1..Len(want) :
                          RIsFinite(e.r[k]) /\ RWithin(e.r[k], want[k], RMul(IF Single(e) THEN RTen(-6) ELSE RTen(-14), RMul(4 + Len(want), s)))
ArraysEval(st, e) ==
  LET x == IF "x" \in DOMAIN e THEN e.x ELSE <<>>
      M(f(_)) == Mapped(x, f)
  IN [ st |-> st,
       ok |-> /\ ("intact" \in DOMAIN e => e.intact)
              /\ CASE e.op = "floor" -> Exactly(e, M(LAMBDA v : RFloor(v)))
                   [] e.op = "ceil" -> Exactly(e, M(Up))
                   [] e.op = "round" -> Exactly(e, M(Nearest))
                   [] e.op = "fix" -> Exactly(e, M(Towards0))
                   [] e.op = "rectify" -> Exactly(e, M(LAMBDA v : RAbs(v)))
                   [] e.op = "clip" -> Exactly(e, M(LAMBDA v : Clip(v, e.lo, e.hi)))
                   [] e.op = "amplify" -> Rounded(e, M(LAMBDA v : RMul(e.g, v)))
                   [] e.op = "amplify_clip" -> Rounded(e, M(LAMBDA v : Clip(RMul(e.g, v), e.lo, e.hi)))
                   [] e.op = "normalize" -> LET b == TLCEval(Big(x)) IN Rounded(e, M(LAMBDA v : RDiv(v, b)))
                   [] e.op = "normalize_rms" -> LET b == TLCEval(RSqrt(MeanSquare(x))) IN WithinAll(e, M(LAMBDA v : RDiv(v, b)), RSqrt(R(Len(x))))
                   [] e.op = "derivative" -> WithinAll(e, Differences(x), IF x = <<>> THEN R(0) ELSE Big(x))
                   [] e.op = "concatenate" -> Exactly(e, x \o e.y)
                   [] e.op = "pad" -> Exactly(e, Padded(x, e.n))
                   [] e.op = "silence" -> e.ret = RLt(MeanSquare(x), e.thr)
                   [] e.op = "equal" -> e.ret = Same(x, e.y, LAMBDA a, b : REq(a, b))
                   [] e.op = "alike" -> e.ret = Same(x, e.y, LAMBDA a, b : RLe(RAbs(RSub(a, b)), e.tol))
                   [] e.op = "linear_search" -> e.at = Find(x, e.v)
                   [] e.op = "binary_search" -> e.at = Find(x, e.v)
                   [] e.op = "index_of" -> e.at = LET k == Find(x, e.v) IN IF k = Len(x) THEN -1 ELSE k
                   [] e.op = "linspace" -> WithinAll(e, Points(e.a, e.b, e.n), RAdd(RAbs(e.a), RAbs(e.b)))
                   [] e.op = "logspace" -> LET w == TLCEval(Mapped(Points(e.a, e.b, e.n), LAMBDA v : RPow(R(10), v)))
                                           IN Len(e.r) = e.n /\ \A k \in 1..e.n : RWithin(e.r[k], w[k], RMul(IF Single(e) THEN RTen(-4) ELSE RTen(-12), RMul(1 + e.n, w[k]))) ]
===============================================================================
