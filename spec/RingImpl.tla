------------------------------- MODULE RingImpl -------------------------------
(***************************************************************************)
(* The circular-array representation (mem, head, size) of a bounded        *)
(* double-ended queue, one action per public operation, together with the  *)
(* abstract object o of module Ring.  TLC checks that the representation   *)
(* refines the abstract queue in every reachable state, and - with the     *)
(* VIEW <<cap, head, size>> - produces one operation sequence for each     *)
(* transition of the representation (hist is not part of the view), which  *)
(* the driver replays on the real classes.                                 *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC, Json
R == INSTANCE Ring

CONSTANTS MaxCap,   \* capacities 1..MaxCap
          MaxHist,  \* bound on the length of generated behaviours
          Tour      \* TRUE: print a behaviour for every transition

VARIABLES mem, head, size, o, hist
vars == <<mem, head, size, o, hist>>
cap == Len(mem)
cell(k) == ((head + k) % cap) + 1          \* array position of the k-th element

Init ==
  \E c \in 1..MaxCap :
    \/ /\ mem = [k \in 1..c |-> 0] /\ head = 0 /\ size = 0
       /\ o = [cap |-> c, q |-> <<>>]
       /\ hist = <<[op |-> "new", s |-> "a", cap |-> c]>>
    \/ /\ mem = [k \in 1..c |-> 7] /\ head = 0 /\ size = c
       /\ o = [cap |-> c, q |-> R!Fill(c, 7)]
       /\ hist = <<[op |-> "new", s |-> "a", cap |-> c, fill |-> 7]>>

fresh == 10 + Len(hist)                     \* a value not stored before

Log(e) == /\ hist' = Append(hist, e)
          /\ o' = R!Apply([a |-> o, b |-> R!None], e).a
          /\ (Tour => PrintT("GEN " \o ToJson(hist')))

Push(opname) ==
  /\ IF size = cap THEN head' = (head + 1) % cap /\ size' = size
                   ELSE head' = head /\ size' = size + 1
  /\ mem' = [mem EXCEPT ![((head' + size' - 1) % cap) + 1] = fresh]
  /\ Log([op |-> opname, s |-> "a", x |-> fresh])

Unshift ==
  /\ head' = (head + cap - 1) % cap
  /\ size' = IF size = cap THEN size ELSE size + 1
  /\ mem' = [mem EXCEPT ![head' + 1] = fresh]
  /\ Log([op |-> "emplace_front", s |-> "a", x |-> fresh])

Shift == /\ size > 0 /\ head' = (head + 1) % cap /\ size' = size - 1 /\ UNCHANGED mem
         /\ Log([op |-> "pop_front", s |-> "a"])

Pop == /\ size > 0 /\ size' = size - 1 /\ UNCHANGED <<head, mem>>
       /\ Log([op |-> "pop_back", s |-> "a"])

ClearAll == /\ size' = 0 /\ head' = 0 /\ UNCHANGED mem /\ Log([op |-> "clear", s |-> "a"])

Write(opname) ==
  \E k \in 0..(size - 1) :
    /\ mem' = [mem EXCEPT ![cell(k)] = fresh] /\ UNCHANGED <<head, size>>
    /\ Log([op |-> opname, s |-> "a", k |-> k, x |-> fresh])

ReadAt ==
  \E k \in 0..(size + 1) :
    UNCHANGED <<mem, head, size>> /\ Log([op |-> "at", s |-> "a", k |-> k])

Next == /\ Len(hist) < MaxHist
        /\ \/ Push("push_back") \/ Push("emplace_back") \/ Unshift \/ Shift \/ Pop \/ ClearAll
           \/ Write("set_index") \/ Write("set_at") \/ Write("set_iter") \/ ReadAt

Spec == Init /\ [][Next]_vars

TypeOK == head \in 0..(cap - 1) /\ size \in 0..cap
Abs == [k \in 1..size |-> mem[cell(k - 1)]]
Refines == o.q = Abs /\ o.cap = cap
Bounded == Len(o.q) <= cap
Shape == <<cap, head, size, Len(hist) = 1 /\ size = cap>>
===============================================================================
