---------------------------------- MODULE ViewsModel ----------------------------------
(***************************************************************************)
(* Every short history of a view of every short text over an alphabet.     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANTS MaxText, MaxLen, Alphabet, Kinds, Tour
V == INSTANCE Views
VARIABLES st, prev, last, hist
vars == <<st, prev, last, hist>>

Texts(n) == UNION {[1..m -> Alphabet] : m \in 0..n}
Begin(k, x) == <<[op |-> "kind", kind |-> k], [op |-> "text", x |-> x]>>
Init == \E k \in Kinds, x \in Texts(MaxText) :
  /\ hist = Begin(k, x)
  /\ st = V!Next([V!ViewsStart EXCEPT !.kind = k], [op |-> "text", x |-> x])
  /\ prev = st /\ last = [op |-> "none"]

Emit == Tour /\ Len(hist) = MaxLen + 2 => PrintT("GEN " \o ToJson(hist))
Do(e) == /\ st' = V!Next(st, e)
         /\ prev' = st /\ last' = e /\ hist' = Append(hist, IF Tour THEN e ELSE <<>>)

Text == st.kind = "text"
Remove == Text /\ \E o \in {"remove_prefix", "remove_suffix"}, n \in 0..st.n : Do([op |-> o, n |-> n])
Substr == Text /\ \E p \in 0..(st.n + 1), n \in {-1, 1, 2} : Do([op |-> "substr", p |-> p, n |-> n])
Find == Text /\ \E o \in V!Finds, x \in Texts(1) \cup {<<a, a>> : a \in Alphabet}, p \in {-1} \cup 0..(st.n + 1) : Do([op |-> o, x |-> x, p |-> p])
Compare == Text /\ \E x \in Texts(2) : Do([op |-> "compare", x |-> x])
Part == Text /\ \E x \in Texts(1), p \in 0..(st.n + 1), n \in {-1, 1} : Do([op |-> "compare_part", x |-> x, p |-> p, n |-> n, p2 |-> 0, n2 |-> -1])
Copy == Text /\ \E p \in 0..(st.n + 1), n \in 0..2 : Do([op |-> "copy", p |-> p, n |-> n])
At == Text /\ \E k \in 0..st.n : Do([op |-> "at", k |-> k])
Two == Text /\ \E o \in {"keep", "swap"} : Do([op |-> o])
Nothing == Do([op |-> "nothing"])
Again == \E k \in 0..Len(st.mem) : \E n \in 0..(Len(st.mem) - k) : Do([op |-> "view", k |-> k, n |-> n])
Stream == Text /\ \E w \in {0, 2, 4}, a \in {"left", "right", "none"} : Do([op |-> "stream", width |-> w, adjust |-> a])
Ends == ~Text /\ \E o \in {"first", "last"}, n \in 0..st.n : Do([op |-> o, n |-> n])
Inner == ~Text /\ \E p \in 0..st.n : \E n \in {-1} \cup 0..(st.n - p) : Do([op |-> "sub", p |-> p, n |-> n])
Fixed == ~Text /\ st.n >= 2 /\ Do([op |-> "fixed"])
Write == ~Text /\ \E k \in 0..(st.n - 1) : Do([op |-> "write", k |-> k, x |-> 7])
Get == ~Text /\ \E k \in 0..(IF st.n = 0 THEN 0 ELSE st.n - 1) : Do([op |-> "get", k |-> k, n |-> st.n])
Relate == ~Text /\ \E x \in Texts(2) : Do([op |-> "relate", x |-> x])
\* asking changes nothing, so it comes last
Ask == Len(hist) = MaxLen + 1 /\ (Find \/ Compare \/ Part \/ Copy \/ At \/ Stream \/ Fixed \/ Get \/ Relate)
Next == Len(hist) < MaxLen + 2 /\ (Remove \/ Substr \/ Two \/ Nothing \/ Again \/ Ends \/ Inner \/ Write \/ Ask)

Spec == Init /\ [][Next]_vars

\* a view lies within its elements
Within(off, n) == (off = -1 /\ n = 0) \/ (off >= 0 /\ n >= 0 /\ off + n <= Len(st.mem))
Inside == Within(st.off, st.n) /\ Within(st.koff, st.kn)
\* only writing through a span changes elements, and only one
Owned == IF last.op = "write" THEN \A k \in DOMAIN st.mem : k # prev.off + last.k + 1 => st.mem[k] = prev.mem[k] ELSE last.op # "none" => st.mem = prev.mem
\* a view which was made from another one lies within it
Narrows == last.op \in {"remove_prefix", "remove_suffix", "substr", "first", "last", "sub"} /\ st.off >= 0 => st.off >= prev.off /\ st.off + st.n <= prev.off + prev.n
Asks == last.op \in V!Finds \cup {"compare", "compare_part", "copy", "at", "stream", "fixed", "get", "relate"} => st = prev

\* laws of searching and of the order, on what is viewed
S == V!View(st)
Found == \A o \in V!Finds, x \in Texts(1) \cup {<<a, a>> : a \in Alphabet}, p \in {-1} \cup 0..Len(S) :
  LET r == V!Find(o, S, x, p)
  IN /\ r \in {-1} \cup 0..Len(S)
     /\ o \in {"find", "first_of", "first_not"} /\ r >= 0 => r >= p
     /\ o \in {"rfind", "last_of", "last_not"} /\ r >= 0 /\ p >= 0 => r <= p
     /\ Len(x) = 1 => /\ V!Find("find", S, x, p) = V!Find("first_of", S, x, p) /\ V!Find("rfind", S, x, p) = V!Find("last_of", S, x, p)
     /\ x = <<>> /\ p >= 0 => V!Find("find", S, x, p) = p /\ V!Find("rfind", S, x, p) = p
     /\ V!Find("rfind", S, x, -1) >= V!Find("find", S, x, 0) /\ (V!Find("rfind", S, x, -1) = -1 <=> V!Find("find", S, x, 0) = -1)
     /\ Len(x) = 1 => /\ V!Find("first_not", S, x, 0) = V!Find("first_of", S, x, 0) <=> S = <<>>
Sorted == \A x, y \in Texts(2) :
  LET c(s, t) == V!Compare(s, t, 1) IN
  /\ c(x, y) = -c(y, x) /\ (c(x, y) = 0 <=> x = y)
  /\ c(S, x) <= 0 /\ c(x, y) <= 0 => c(S, y) <= 0
  /\ c(x, x \o y) <= 0
=======================================================================================
