---------------------------- MODULE ConversionsModel ----------------------------
(* Inverse pairs, monotony and reference points of the scales on a grid. *)
EXTENDS Naturals, Integers, Sequences, FReal, TLC, Json
S == INSTANCE Conversions
CONSTANTS Grid, Tour
VARIABLES v, hist

Init == v \in Grid /\ hist = <<>>
Next == FALSE /\ UNCHANGED <<v, hist>>
Emit == Tour => PrintT("GEN " \o ToJson(<<v>>))

a == RRat(v, 8)                   \* a small number
f == R(v)                         \* a frequency
eps == RTen(-9)
Near(x, y) == RNear(x, y, eps)
Inverse == /\ Near(S!Mag2Db(S!Db2Mag(a)), a) /\ Near(S!Pow2Db(S!Db2Pow(a)), a) /\ Near(S!Rad2Deg(S!Deg2Rad(a)), a)
           /\ Near(S!MelInv(S!Mel(f)), f) /\ Near(S!ErbInv(S!Erb(f)), f) /\ Near(S!BarkInv(S!Bark(f)), f)
           /\ v >= 17 => Near(S!CentInv(S!Cent(f)), f)
           /\ \A mu \in {1, 100, 255} : \A x \in {RDiv(1, RAdd(1, a)), RDiv(-1, RAdd(1, a)), R(0)} : Near(S!MuLawInv(S!MuLaw(x, R(1), mu), R(1), mu), x)
Increasing == /\ RLt(S!Mel(f), S!Mel(RAdd(f, 1))) /\ RLt(S!Erb(f), S!Erb(RAdd(f, 1))) /\ RLt(S!Bark(f), S!Bark(RAdd(f, 1)))
              /\ (v >= 1 => RLt(S!Cent(f), S!Cent(RAdd(f, 1))))
\* twice the power is 3 dB and ten times the magnitude 20 dB, whatever the level
Levels == Near(S!Db2Mag(RAdd(a, 20)), RMul(10, S!Db2Mag(a))) /\ Near(S!Db2Pow(a), RMul(S!Db2Mag(a), S!Db2Mag(a)))
References == /\ RWithin(S!Mel(R(1000)), 1000, RRat(1, 100)) /\ Near(S!Cent(R(440)), 5700) /\ Near(S!Cent(R(880)), 6900) /\ Near(S!Deg2Rad(R(180)), RPi)
              /\ RWithin(S!Bark(R(1000)), RRat(853, 100), RRat(1, 10)) /\ Near(S!Mag2Db(R(10)), 20) /\ Near(S!Pow2Db(R(10)), 10)
\* an octave is 1200 cents anywhere
Octaves == v >= 1 => Near(S!Cent(RMul(2, f)), RAdd(S!Cent(f), 1200))
\* companding raises what is small and keeps the ends and the sign
Companding == LET x == RDiv(1, RAdd(1, a))
                  y == S!MuLaw(x, R(1), 255)
              IN RLe(x, RAdd(y, eps)) /\ RLe(y, 1) /\ REq(S!MuLaw(RNeg(x), R(1), 255), RNeg(y)) /\ Near(S!MuLaw(R(1), R(1), 255), 1)
=================================================================================
