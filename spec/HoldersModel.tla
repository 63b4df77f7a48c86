-------------------------------- MODULE HoldersModel --------------------------------
(***************************************************************************)
(* Every short history of two holders of one class, with values which can  *)
(* and values which cannot be copied.                                      *)
(* balance: values put into holders less values taken out of them by       *)
(* ending, replacing or clearing.                                          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANTS MaxLen, Hows, Tour
H == INSTANCE Holders
VARIABLES st, prev, last, hist
vars == <<st, prev, last, hist>>

Start(k) == <<[op |-> "kind", kind |-> k], [op |-> "new", s |-> "a"], [op |-> "new", s |-> "b"]>>
Init == \E k \in H!Kinds :
  /\ hist = Start(k)
  /\ st = [kind |-> k, a |-> H!Fresh(k), b |-> H!Fresh(k)]
  /\ prev = st /\ last = [op |-> "none"]

Emit == Tour /\ Len(hist) = MaxLen + 3 => PrintT("GEN " \o ToJson(hist))
Do(e) == /\ \E n \in H!After(st, e) : st' = n
         /\ prev' = st /\ last' = e /\ hist' = Append(hist, IF Tour THEN e ELSE <<>>)

Values == {1, 13}
Put(s) == \E t \in H!Tags(st.kind), h \in Hows, x \in Values : Do([op |-> "put", s |-> s, tag |-> t, how |-> h, x |-> x])
Set(s) == \E t \in H!Tags(st.kind) : Do([op |-> "set", s |-> s, tag |-> t, x |-> 2])
Get(s) == \E t \in H!Tags(st.kind) : Do([op |-> "get", s |-> s, tag |-> t, const |-> 0])
Copy(s) == \E b \in {0, 1}, o \in {"copy", "move", "swap"} : Do([op |-> o, s |-> s, build |-> b])
Self(s) == Do([op |-> "self", s |-> s])
Clear(s) == st.kind \in {"optional", "any"} /\ \E h \in {0, 1} : Do([op |-> "clear", s |-> s, how |-> h])
Or(s) == st.kind \in {"optional", "expected"} /\ Do([op |-> "or", s |-> s, x |-> 2, const |-> 1])
Cmp(s) == st.kind # "any" /\ Do([op |-> "cmp", s |-> s, x |-> 1])
Visit(s) == st.kind = "variant" /\ Do([op |-> "visit", s |-> s])
Next == Len(hist) < MaxLen + 3 /\ \E s \in {"a", "b"} : Put(s) \/ Set(s) \/ Get(s) \/ Copy(s) \/ Self(s) \/ Clear(s) \/ Or(s) \/ Cmp(s) \/ Visit(s)

Spec == Init /\ [][Next]_vars

Cells == {st.a, st.b}
TypeOK == \A c \in Cells : c.t \in H!Tags(st.kind) \cup {"none"}
\* an expected always holds something; a variant unless an assignment failed
Filled == /\ st.kind = "expected" => \A c \in Cells : c.t # "none"
          /\ (st.kind \in {"variant", "small"} /\ \A c \in {prev.a, prev.b} : c.t # "none") => (\A c \in Cells : c.t # "none") \/ H!Fails(prev, last)
\* asking changes nothing, and a copy leaves its source
Quiet == /\ last.op \in {"get", "cmp", "visit", "or", "self"} => st = prev
         /\ last.op \in {"copy", "put", "set", "clear"} => st[H!Other(last.s)] = prev[H!Other(last.s)]
         /\ last.op = "copy" /\ ~H!Fails(prev, last) => st[last.s] = st[H!Other(last.s)]
\* nothing which cannot be copied comes into being by a copy
Unique == (\E t \in H!Classes : st.a = H!Val(t, 13) /\ st.b = H!Val(t, 13)) => last.op # "copy" \/ H!Fails(prev, last)
=======================================================================================
