----------------------------- MODULE MovingWindow -----------------------------
(***************************************************************************)
(* Moving-window filters: the mean, root-mean-square or median of the last *)
(* n samples, samples before the first one counting as zero.               *)
(* State: kind, the window (n most recent samples, oldest first) and the   *)
(* largest magnitude fed so far (for the tolerance of comparisons).        *)
(* Two filter objects, "a" and "b", exist, so that copies can be observed. *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC, FReal

Fresh(kind, n) == [kind |-> kind, w |-> [k \in 1..n |-> 0], mag |-> R(0)]
NoFilter == [kind |-> "none", w |-> <<>>, mag |-> R(0)]
MovingWindowStart == [a |-> NoFilter, b |-> NoFilter]

Feed(f, x) == [f EXCEPT !.w = Append(Tail(@), x), !.mag = RMax(@, RAbs(x))]

MedianOf(w) ==
  LET s == SortSeq(w, LAMBDA x, y : RLt(x, y))
      n == Len(w)
  IN IF n % 2 = 1 THEN s[(n + 1) \div 2] ELSE RDiv(RAdd(s[n \div 2], s[n \div 2 + 1]), 2)

Eps == RTen(-9)
\* Is y the output of filter f, having just been fed?
Output(f, y) ==
  LET n == Len(f.w)
      m == RAdd(1, f.mag)
  IN CASE f.kind = "average" -> RWithin(y, RDiv(RSum(f.w), n), RMul(Eps, m))
       [] f.kind = "median"  -> RWithin(y, MedianOf(f.w), RMul(Eps, m))
       [] f.kind = "rms"     -> /\ RLe(0, y)
                                /\ RWithin(RMul(y, y), RDiv(RDot(f.w, f.w), n), RMul(Eps, RMul(m, m)))

RECURSIVE FeedAll(_, _), OutputAll(_, _, _)
FeedAll(f, xs) == IF xs = <<>> THEN f ELSE FeedAll(Feed(f, Head(xs)), Tail(xs))
OutputAll(f, xs, ys) ==
  IF xs = <<>> THEN ys = <<>>
  ELSE /\ ys # <<>>
       /\ LET g == Feed(f, Head(xs)) IN Output(g, Head(ys)) /\ OutputAll(g, Tail(xs), Tail(ys))

MovingWindowEval(st, e) ==
  LET f == st[e.s]
      o == IF e.s = "a" THEN "b" ELSE "a"
      to(g) == [st EXCEPT ![e.s] = g]
      sized(g) == e.size = Len(g.w)
  IN CASE e.op = "new"    -> LET g == Fresh(e.kind, e.n) IN [st |-> [MovingWindowStart EXCEPT ![e.s] = g], ok |-> sized(g)]
       [] e.op = "tick"   -> LET g == Feed(f, e.x) IN [st |-> to(g), ok |-> Output(g, e.ret) /\ sized(g)]
       [] e.op = "filter" -> [st |-> to(FeedAll(f, e.x)), ok |-> OutputAll(f, e.x, e.ret) /\ sized(f) /\ e.intact]
       [] e.op = "reset"  -> LET g == Fresh(f.kind, Len(f.w)) IN [st |-> to(g), ok |-> sized(g)]
       [] e.op = "resize" -> LET g == Fresh(f.kind, e.n) IN [st |-> to(g), ok |-> sized(g)]
       [] e.op = "copy"   -> [st |-> to(st[o]), ok |-> e.size = Len(st[o].w)]
===============================================================================
