------------------------------- MODULE SystemModel -------------------------------
(***************************************************************************)
(* Every short history of the environment.  last[n]: the value of the last *)
(* assignment to n that should be in force, kept independently as a list   *)
(* of accepted assignments.                                                *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Tour
S == INSTANCE System
VARIABLES env, log, hist
vars == <<env, log, hist>>
A == 65
B == 66
Names == {<<>>, <<A>>, <<A, B>>, <<A, 61>>, <<A, 61, B>>}
Values == {<<>>, <<120>>, <<120, 61, 32, 200>>}
Init == env = << >> /\ log = <<>> /\ hist = <<[op |-> "clear"]>>
Log(e) == hist' = Append(hist, e) /\ (Tour => IF Len(hist') = MaxLen THEN PrintT("GEN " \o ToJson(hist')) ELSE TRUE)
Assign == \E n \in Names, v \in Values, o \in {0, 1} :
  LET e == [op |-> "set", name |-> n, value |-> v, over |-> o]
  IN /\ env' = (IF S!ValidName(n) THEN S!Set(env, n, v, o = 1) ELSE env)
     /\ log' = (IF S!ValidName(n) /\ (o = 1 \/ \A k \in 1..Len(log) : log[k][1] # n) THEN Append(log, <<n, v>>) ELSE log)
     /\ Log(e)
Look == \E n \in Names, o \in {"get", "exist"} : Log([op |-> o, name |-> n]) /\ UNCHANGED <<env, log>>
Next == Len(hist) < MaxLen /\ (Assign \/ Look)
Spec == Init /\ [][Next]_vars
Last(n) == CHOOSE k \in 1..Len(log) : log[k][1] = n /\ \A j \in (k + 1)..Len(log) : log[j][1] # n
InForce == /\ DOMAIN env = {log[k][1] : k \in 1..Len(log)}
           /\ \A n \in DOMAIN env : env[n] = log[Last(n)][2]
NoBadName == \A n \in DOMAIN env : S!ValidName(n)
==================================================================================
