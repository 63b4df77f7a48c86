------------------------------ MODULE ResampleModel ------------------------------
(***************************************************************************)
(* The position arithmetic of a streaming converter with ratio P / Q, and  *)
(* any partition of the stream into blocks: idx is the time of the next    *)
(* output relative to the first unused input frame: the                    *)
(* converter stops when the block or the promised room is used up.         *)
(* Invariants: the outputs made so far stand at times 0, 1/ratio, ... of   *)
(* the whole stream, none is lost or repeated at the joints, and each      *)
(* block either fills its room or uses all its frames.                     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC, Json
AllRatios == {<<1, 1>>, <<2, 1>>, <<1, 2>>, <<3, 2>>, <<2, 3>>, <<7, 4>>, <<4, 7>>, <<11, 3>>}
CONSTANTS Ratios, Blocks, MaxLen, Tour
VARIABLES p, q, idx, used, made, times, full, hist
vars == <<p, q, idx, used, made, times, full, hist>>

\* time in units of 1 / p of an input frame: the step per output is q
Init == /\ \E r \in Ratios : p = r[1] /\ q = r[2]
        /\ idx = 0 /\ used = 0 /\ made = 0 /\ times = <<>> /\ full = TRUE /\ hist = <<p, q>>

RECURSIVE Run(_, _, _, _, _)   \* idx relative to the block, room left, limit: <<idx, produced times>>
Run(i, room, n, base, acc) ==
  IF room = 0 \/ i \div p >= n THEN <<i, acc>> ELSE Run(i + q, room - 1, n, base, Append(acc, base * p + i))
Process(n) ==
  LET room == (p * n) \div q
      r == Run(idx, room, n, used, <<>>)
      u == IF r[1] \div p < n THEN r[1] \div p ELSE n
  IN /\ times' = times \o r[2] /\ made' = made + Len(r[2])
     /\ used' = used + u /\ idx' = r[1] - u * p
     /\ full' = (Len(r[2]) = room \/ u = n)
     /\ hist' = Append(hist, n) /\ UNCHANGED <<p, q>>
     /\ (Tour => IF Len(hist') = MaxLen THEN PrintT("GEN " \o ToJson(hist')) ELSE TRUE)
Next == Len(hist) < MaxLen /\ \E n \in Blocks : Process(n)
Spec == Init /\ [][Next]_vars
OnTime == \A k \in 1..Len(times) : times[k] = (k - 1) * q
Count == made = Len(times)
Busy == full
==================================================================================
