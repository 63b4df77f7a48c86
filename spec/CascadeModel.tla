----------------------------- MODULE CascadeModel -----------------------------
(***************************************************************************)
(* A cascade as a list of sections over a fixed array: n live sections in  *)
(* an array of capacity cap.  The sections are delays and gains on         *)
(* integers, enough to tell their order and their memory apart: section    *)
(* [g, d] answers g * x + d and keeps x in d.                              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANTS MaxCap, MaxLen, Tour
VARIABLES cap, arr, n, list, y, hist
vars == <<cap, arr, n, list, y, hist>>

Blank == [g |-> 1, d |-> 0]
Gains == {1, 2}
Log(e) == hist' = Append(hist, e) /\ (Tour => IF Len(hist') = MaxLen THEN PrintT("GEN " \o ToJson(hist')) ELSE TRUE)

Init == /\ cap \in 1..MaxCap /\ arr = [k \in 1..cap |-> Blank] /\ n = 0 /\ list = <<>> /\ y = 0
        /\ hist = <<[op |-> "new", cap |-> cap]>>

\* y[n] = g x[n] + x[n-1]
Push(name) == \E g \in Gains :
  /\ n < cap /\ arr' = [arr EXCEPT ![n + 1] = [g |-> g, d |-> 0]] /\ n' = n + 1
  /\ list' = Append(list, [g |-> g, d |-> 0]) /\ UNCHANGED <<cap, y>>
  /\ Log([op |-> name, a0 |-> 1, a1 |-> 0, a2 |-> 0, b0 |-> g, b1 |-> 1, b2 |-> 0, warm |-> <<>>])

RECURSIVE Through(_, _, _, _)   \* sections from..to of array a fed with x: <<new array, output>>
Through(a, from, to, x) ==
  IF from > to THEN <<a, x>>
  ELSE Through([a EXCEPT ![from].d = x], from + 1, to, a[from].g * x + a[from].d)
RECURSIVE Feed(_, _)
Feed(l, x) == IF l = <<>> THEN <<<<>>, x>>
              ELSE LET r == Feed(Tail(l), Head(l).g * x + Head(l).d)
                   IN <<<<[g |-> Head(l).g, d |-> x]>> \o r[1], r[2]>>

Tick == \E x \in {1, 3} :
  LET t == Through(arr, 1, n, x)
      f == Feed(list, x)
  IN arr' = t[1] /\ y' = t[2] - f[2] /\ list' = f[1] /\ UNCHANGED <<cap, n>> /\ Log([op |-> "tick", x |-> x])
Reset == /\ arr' = [k \in 1..cap |-> IF k <= n THEN [arr[k] EXCEPT !.d = 0] ELSE arr[k]]
         /\ list' = [k \in 1..Len(list) |-> [list[k] EXCEPT !.d = 0]] /\ UNCHANGED <<cap, n, y>> /\ Log([op |-> "reset"])
Clear == n' = 0 /\ list' = <<>> /\ UNCHANGED <<cap, arr, y>> /\ Log([op |-> "clear"])

Next == Len(hist) < MaxLen /\ (Push("push_back") \/ Push("emplace_back") \/ Tick \/ Reset \/ Clear)
Spec == Init /\ [][Next]_vars
Contents == n <= cap /\ SubSeq(arr, 1, n) = list
Order == y = 0                  \* both ways of feeding give the same output
===============================================================================
