------------------------------ MODULE SystemRaceModel ------------------------------
(***************************************************************************)
(* Two threads using the environment: every operation takes the one lock,  *)
(* runs the host's primitive, which is not atomic (looking the name up and *)
(* changing are separate steps), and gives the lock back.  Every           *)
(* interleaving is explained by the atomic operations, no change overlaps  *)
(* anything, and nobody waits for ever.  Unlocked = TRUE takes no lock: it *)
(* must fail, which shows the invariants are not vacuous.                  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Long, Unlocked, Tour
R == INSTANCE SystemRace
VARIABLES env, lock, pc, k, seen, prog, w
vars == <<env, lock, pc, k, seen, prog, w>>
A == <<65>>
B == <<66>>
St(o, n, v, ov) == [what |-> o, name |-> n, value |-> v, over |-> ov]
Steps == {St("set", A, <<120>>, 1), St("set", A, <<121, 121>>, 0), St("set", A, <<>>, 1), St("set", B, <<122>>, 1), St("get", A, <<>>, 0), St("get", B, <<>>, 0), St("exist", A, <<>>, 0)}
Progs == {<<s>> : s \in Steps} \cup (IF Long THEN {<<s, t>> : s, t \in Steps} ELSE {})
Threads == {1, 2}
Written(t, s) == [op |-> "put", by |-> t, what |-> s.what, name |-> s.name, value |-> s.value, over |-> s.over]
Listed(p) == [j \in 1..Len(p[1]) |-> Written(1, p[1][j])] \o [j \in 1..Len(p[2]) |-> Written(2, p[2][j])]
Plan(p, who, stop, before) == <<[op |-> "clear"]>> \o Listed(p) \o <<[op |-> "go", who |-> who, stop |-> stop, before |-> before]>>
Emitted(p) == Tour => \A who \in Threads, before \in {0, 1} : \A stop \in 0..(Len(p[who]) - 1) : PrintT("GEN " \o ToJson(Plan(p, who, stop, before)))
Init == /\ prog \in [Threads -> Progs] /\ Emitted(prog)
        /\ env = << >> /\ lock = 0 /\ pc = [t \in Threads |-> "idle"] /\ k = [t \in Threads |-> 1] /\ seen = [t \in Threads |-> FALSE]
        /\ w = R!World(<< >>)
Cur(t) == prog[t][k[t]]
Kind(t) == IF Cur(t).what = "set" THEN "write" ELSE "read"
Call(t) == /\ pc[t] = "idle" /\ k[t] <= Len(prog[t]) /\ pc' = [pc EXCEPT ![t] = "want"]
           /\ w' = R!Called(w, t, Cur(t)) /\ UNCHANGED <<env, lock, k, seen, prog>>
Take(t) == /\ pc[t] = "want" /\ (Unlocked \/ lock = 0) /\ lock' = t /\ pc' = [pc EXCEPT ![t] = "look"]
           /\ w' = R!Entered(w, t, Kind(t)) /\ UNCHANGED <<env, k, seen, prog>>
Look(t) == /\ pc[t] = "look" /\ seen' = [seen EXCEPT ![t] = Cur(t).name \in DOMAIN env] /\ pc' = [pc EXCEPT ![t] = "act"] /\ UNCHANGED <<env, lock, k, prog, w>>
Act(t) == /\ pc[t] = "act" /\ pc' = [pc EXCEPT ![t] = "give"]
          /\ env' = (IF Cur(t).what = "set" /\ (Cur(t).over = 1 \/ ~seen[t]) THEN (Cur(t).name :> Cur(t).value) @@ env ELSE env)
          /\ w' = R!Left(w, t, Kind(t)) /\ UNCHANGED <<lock, k, seen, prog>>
Said(t) == CASE Cur(t).what = "set" -> R!Answer("none", FALSE, <<>>)
             [] Cur(t).what = "get" -> IF Cur(t).name \in DOMAIN env THEN R!Answer("none", TRUE, env[Cur(t).name]) ELSE R!Answer("not_found", FALSE, <<>>)
             [] Cur(t).what = "exist" -> R!Answer("none", seen[t], <<>>)
Give(t) == /\ pc[t] = "give" /\ lock' = 0 /\ pc' = [pc EXCEPT ![t] = "idle"] /\ k' = [k EXCEPT ![t] = @ + 1]
           /\ w' = R!Returned(w, t, Said(t)) /\ UNCHANGED <<env, seen, prog>>
Next == \E t \in Threads : Call(t) \/ Take(t) \/ Look(t) \/ Act(t) \/ Give(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Explained == R!Explained(w)
Exclusive == R!Exclusive(w.inside)
OneHolder == ~Unlocked => Cardinality({t \in Threads : pc[t] \in {"look", "act", "give"}}) <= 1
Finished == <>(\A t \in Threads : pc[t] = "idle" /\ k[t] > Len(prog[t]))
=====================================================================================
