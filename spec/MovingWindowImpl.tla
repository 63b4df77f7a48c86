---------------------------- MODULE MovingWindowImpl ----------------------------
(***************************************************************************)
(* The incremental computation of a moving mean (a circular window and an  *)
(* accumulator updated by the difference of the newest and the oldest      *)
(* sample) on integers.  Invariant: the accumulator is the sum of the last *)
(* n samples since the last reset or resize - however those are mixed with *)
(* samples.  Every behaviour of MaxLen operations is printed (Tour).       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANTS MaxN, MaxLen, Values, Kinds, Tour
VARIABLES kind, win, acc, fed, hist

vars == <<kind, win, acc, fed, hist>>
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Zeros(n) == [k \in 1..n |-> 0]
Last(n, s) == LET p == Zeros(n) \o s IN SubSeq(p, Len(p) - n + 1, Len(p))

Init == \E n \in 1..MaxN, k \in Kinds :
  /\ kind = k /\ win = Zeros(n) /\ acc = 0 /\ fed = <<>>
  /\ hist = <<[op |-> "new", s |-> "a", kind |-> k, n |-> n]>>

Log(e) == hist' = Append(hist, e) /\ (Tour => IF Len(hist') = MaxLen THEN PrintT("GEN " \o ToJson(hist')) ELSE TRUE)

Tick == \E v \in Values : LET x == v - 2 IN   \* values are given shifted by 2
  /\ acc' = acc - Head(win) + x
  /\ win' = Append(Tail(win), x)
  /\ fed' = Append(fed, x)
  /\ UNCHANGED kind
  /\ Log([op |-> "tick", s |-> "a", x |-> x])
Reset == /\ acc' = 0 /\ win' = Zeros(Len(win)) /\ fed' = <<>> /\ UNCHANGED kind /\ Log([op |-> "reset", s |-> "a"])
Resize == \E n \in 1..MaxN : acc' = 0 /\ win' = Zeros(n) /\ fed' = <<>> /\ UNCHANGED kind /\ Log([op |-> "resize", s |-> "a", n |-> n])

Next == Len(hist) < MaxLen /\ (Tick \/ Reset \/ Resize)
Spec == Init /\ [][Next]_vars

WindowIsLastSamples == win = Last(Len(win), fed)
AccumulatorIsSum == acc = Sum(win)
===============================================================================
