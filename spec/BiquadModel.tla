------------------------------ MODULE BiquadModel ------------------------------
(***************************************************************************)
(* Two models about second-order sections.                                 *)
(* Forms: the transposed form with two state variables, the one a program  *)
(* keeps, computes on every input history exactly what the difference      *)
(* equation (direct form, module Biquad) prescribes - on integers, with    *)
(* integer coefficients, resets and coefficient changes interleaved.       *)
(* Poles: the triangle criterion used by Stable holds exactly when both    *)
(* roots of z^2 + a1 z + a2 lie inside the unit circle, on a grid of       *)
(* coefficients p/Grid, q/Grid.                                            *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FReal, TLC, Json
B == INSTANCE Biquad
CONSTANTS MaxLen, Inputs, CoefVals, Grid, Tour

VARIABLES c,          \* coefficients <<a1, a2, b0, b1, b2>>
          w0, w1,     \* the transposed form's state
          xs, ys,     \* inputs and outputs since the last reset, newest first
          hist

vars == <<c, w0, w1, xs, ys, hist>>
at(s, k) == IF k <= Len(s) THEN s[k] ELSE 0
Log(e) == hist' = Append(hist, e) /\ (Tour => IF Len(hist') = MaxLen THEN PrintT("GEN " \o ToJson(hist')) ELSE TRUE)

Init == /\ c \in {<<a1, a2, 1, b1, b2>> : a1 \in CoefVals, a2 \in CoefVals, b1 \in CoefVals, b2 \in CoefVals}
        /\ w0 = 0 /\ w1 = 0 /\ xs = <<>> /\ ys = <<>>
        /\ hist = <<[op |-> "new_coefs", s |-> "a", a0 |-> 1, a1 |-> c[1] - 1, a2 |-> c[2] - 1, b0 |-> c[3], b1 |-> c[4] - 1, b2 |-> c[5] - 1]>>
C(k) == IF k = 3 THEN c[3] ELSE c[k] - 1     \* CoefVals and Inputs are given shifted by one

Tick == \E v \in Inputs :
  LET x == v - 1
      y == C(3) * x + w0
  IN /\ w0' = C(4) * x - C(1) * y + w1
     /\ w1' = C(5) * x - C(2) * y
     /\ xs' = <<x>> \o xs /\ ys' = <<y>> \o ys /\ UNCHANGED c
     /\ Log([op |-> "tick", s |-> "a", x |-> x])
Reset == w0' = 0 /\ w1' = 0 /\ xs' = <<>> /\ ys' = <<>> /\ UNCHANGED c /\ Log([op |-> "reset", s |-> "a"])
SetB1 == \E v \in CoefVals :
  /\ c' = [c EXCEPT ![4] = v] /\ w0' = 0 /\ w1' = 0 /\ xs' = <<>> /\ ys' = <<>>
  /\ Log([op |-> "set", s |-> "a", c |-> "b1", v |-> v - 1])
Next == Len(hist) < MaxLen /\ (Tick \/ Reset \/ SetB1)
Spec == Init /\ [][Next]_vars

DirectForm == ys # <<>> =>
  ys[1] = C(3) * at(xs, 1) + C(4) * at(xs, 2) + C(5) * at(xs, 3) - C(1) * at(ys, 2) - C(2) * at(ys, 3)

\* ---- poles ---------------------------------------------------------------------------------------------------
VARIABLE g
PolesInit == /\ g \in (-(2 * Grid + 2)..(2 * Grid + 2)) \X (-(Grid + 2)..(Grid + 2))
             /\ c = 0 /\ w0 = 0 /\ w1 = 0 /\ xs = 0 /\ ys = 0 /\ hist = 0
PolesNext == FALSE /\ UNCHANGED <<vars, g>>
RootSquaredMax ==       \* the larger |root|^2 of z^2 + a1 z + a2
  LET a1 == RRat(g[1], Grid)
      a2 == RRat(g[2], Grid)
      d == RSub(RMul(a1, a1), RMul(4, a2))
  IN IF RLt(d, 0) THEN a2
     ELSE LET r == RSqrt(d)
              u == RDiv(RAdd(RNeg(a1), r), 2)
              v == RDiv(RSub(RNeg(a1), r), 2)
          IN RMax(RMul(u, u), RMul(v, v))
TriangleIsPolesInside ==
  LET s == B!Stable(B!Coefs(R(1), RRat(g[1], Grid), RRat(g[2], Grid), R(1), R(0), R(0)))
      m == RootSquaredMax
  IN RWithin(m, 1, RTen(-9)) \/ s = RLt(m, 1)
FormsInit == Init /\ g = 0
FormsNext == Next /\ UNCHANGED g
===============================================================================
