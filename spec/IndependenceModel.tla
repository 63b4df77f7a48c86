----------------------------- MODULE IndependenceModel -----------------------------
(***************************************************************************)
(* Why objects do not disturb each other.  A step takes two moments: it    *)
(* writes its working memory from the state of its object, and it answers  *)
(* from the working memory and moves the object on.  The working memory    *)
(* belongs to the call (Shared = FALSE) or is one for all calls (Shared =  *)
(* TRUE); steps may overlap (Overlap = TRUE, threads) or not.  Answers are *)
(* as alone unless working memory is shared and steps overlap.             *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Shared, Overlap, Tour
VARIABLES obj, cell, busy, work, said, hist
vars == <<obj, cell, busy, work, said, hist>>
Ids == {1, 2, 3}
Machines == {<<"p", 0>>, <<"q", 0>>}
I == INSTANCE Independence
\* state of a machine after n steps, and its next answer: different for every machine and step
Init0(m) == IF m[1] = "p" THEN 1 ELSE 2
Move(s) == 3 * s + 1
RECURSIVE After(_, _)
After(m, n) == IF n = 0 THEN Init0(m) ELSE Move(After(m, n - 1))
Log(e) == hist' = Append(hist, e) /\ (Tour => IF Len(hist') = MaxLen THEN PrintT("GEN " \o ToJson(hist')) ELSE TRUE)
Init == obj = << >> /\ cell = << >> /\ busy = {} /\ work = << >> /\ said = TRUE /\ hist = <<>>
Quiet == Overlap \/ busy = {}
New(id, m) == /\ id \notin busy /\ Quiet /\ \A j \in 1..(id - 1) : j \in DOMAIN obj
              /\ obj' = I!Made(obj, id, m) /\ cell' = (id :> Init0(m)) @@ cell /\ UNCHANGED <<busy, work, said>>
              /\ Log([op |-> "new", id |-> id, kind |-> m[1], f |-> m[2]])
Place(id) == IF Shared THEN 0 ELSE id
Begin(id) == /\ id \in DOMAIN obj /\ id \notin busy /\ Quiet /\ obj[id].at < 4
             /\ work' = (Place(id) :> cell[id]) @@ work /\ busy' = busy \cup {id} /\ UNCHANGED <<obj, cell, said, hist>>
End(id) == /\ id \in busy /\ busy' = busy \ {id}
           /\ said' = (work[Place(id)] = After(obj[id].m, obj[id].at))
           /\ cell' = [cell EXCEPT ![id] = Move(work[Place(id)])] /\ obj' = I!Stepped(obj, id) /\ UNCHANGED work
           /\ Log([op |-> "step", id |-> id])
Copy(id, to, as) == /\ {id, to} \cap busy = {} /\ Quiet /\ id # to /\ id \in DOMAIN obj /\ (as = 1 => (to \in DOMAIN obj /\ obj[to].m[1] = obj[id].m[1])) /\ \A j \in 1..(to - 1) : j \in DOMAIN obj
                    /\ obj' = I!Copied(obj, id, to) /\ cell' = (to :> cell[id]) @@ cell /\ UNCHANGED <<busy, work, said>>
                    /\ Log([op |-> "copy", id |-> id, to |-> to, assign |-> as])
Drop(id) == /\ id \in DOMAIN obj /\ id \notin busy /\ Quiet /\ id = Cardinality(DOMAIN obj)
            /\ obj' = I!Dropped(obj, id) /\ cell' = I!Without(cell, id) /\ UNCHANGED <<busy, work, said>> /\ Log([op |-> "drop", id |-> id])
Next == Len(hist) + Cardinality(busy) < MaxLen + Cardinality(busy) /\
        ((\E id \in Ids : Begin(id) \/ End(id) \/ Drop(id) \/ (\E m \in Machines : New(id, m)) \/ (\E to \in Ids, as \in {0, 1} : Copy(id, to, as))))
Spec == Init /\ [][Next]_vars
Answers == said
States == \A id \in DOMAIN obj : id \notin busy => cell[id] = After(obj[id].m, obj[id].at)
=====================================================================================
