------------------------------ MODULE WindowsModel ------------------------------
(* Every window of every length up to MaxN: symmetry, range, ends and centre, and overlap. *)
EXTENDS Naturals, Integers, Sequences, FReal, TLC, Json
S == INSTANCE Windows
CONSTANTS MaxN, Tour
VARIABLES name, n

Init == name \in S!Names /\ n \in 1..MaxN
Next == FALSE /\ UNCHANGED <<name, n>>
Emit == Tour => PrintT("GEN " \o ToJson(<<name, n>>))
w == S!Window(name, n)
eps == RTen(-9)
Symmetric == \A k \in 1..n : RWithin(w[k], w[n + 1 - k], eps)
\* the flat top dips below zero; every other window is within [0, 1]
Range == \A k \in 1..n : RLe(w[k], RAdd(1, RTen(-5))) /\ RLe(IF name = "flattop" THEN RRat(-1, 10) ELSE RNeg(eps), w[k])
Ends == n > 1 => CASE name \in {"hanning", "bartlett", "welch"} -> RWithin(w[1], 0, eps)
                   [] name = "hamming" -> RWithin(w[1], RRat(8, 100), eps)
                   [] name \in S!Cosine -> RWithin(w[1], 0, RRat(1, 1000))
                   [] name = "triangular" -> RLt(0, w[1])
                   [] OTHER -> TRUE
Centre == n % 2 = 1 => RWithin(w[(n + 1) \div 2], 1, RTen(-4))
Rising == name # "flattop" => \A k \in 1..(n \div 2 - 1) : RLe(w[k], RAdd(w[k + 1], eps))
\* half-overlapped Hann and Bartlett windows sum to one
Overlap == name \in {"hanning", "bartlett"} /\ n % 2 = 1 /\ n > 2 =>
             \A k \in 1..((n - 1) \div 2) : RWithin(RAdd(w[k], w[k + (n - 1) \div 2]), 1, eps)
=================================================================================
