------------------------------ MODULE EngineModel ------------------------------
(***************************************************************************)
(* A transform engine which keeps one prepared plan for reuse.  A plan is  *)
(* good for one kind of transform, one placement (in place or not) and one *)
(* alignment; executing another one would give the wrong transform.  The   *)
(* model checks that replacing the plan whenever any of these differ makes *)
(* the plan invisible, and prints every history for the real engine.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxLen, Kinds, Tour
VARIABLES plan, done, hist
Requests == [k : Kinds, inplace : {0, 1}, off : {0, 1}]
Real(r) == r.k \in {"e_dft", "e_idft"} => r.inplace = 0
None == [k |-> "none", inplace |-> 0, off |-> 0]
Init == plan = None /\ done = <<None, None>> /\ hist = <<>>
Next == Len(hist) < MaxLen /\ \E r \in {q \in Requests : Real(q)} :
  /\ plan' = IF plan = r THEN plan ELSE r
  /\ done' = <<r, plan'>>
  /\ hist' = Append(hist, r)
  /\ (Tour /\ Len(hist') = MaxLen => PrintT("GEN " \o ToJson(hist')))
Right == done[1] = done[2]
================================================================================
