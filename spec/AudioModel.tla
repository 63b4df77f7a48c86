------------------------------- MODULE AudioModel -------------------------------
(***************************************************************************)
(* Every short history of an encoder and a decoder over two files.         *)
(* wrote[p]: what was handed to the encoder since p was last opened for    *)
(* writing.  got: what the decoder returned since it was opened or moved,  *)
(* starting at frame from.                                                 *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANTS MaxLen, Tour
A == INSTANCE Audio
VARIABLES st, wrote, got, from, next, hist
vars == <<st, wrote, got, from, next, hist>>

Log(e) == hist' = Append(hist, e) /\ (Tour => IF Len(hist') = MaxLen THEN PrintT("GEN " \o ToJson(hist')) ELSE TRUE)
Do(e) == st' = A!Step(st, e) /\ Log(e)
Same == UNCHANGED <<wrote, got, from, next>>

E0(ch) == [op |-> "encoder", type |-> "i16", ch |-> ch, rate |-> 8000]
Init == \E ch \in {1, 2} :
  /\ hist = <<E0(ch), [op |-> "decoder", type |-> "i16", block |-> 4], [op |-> "eopen", p |-> "a"]>>
  /\ st = A!Step(A!Step(A!Step(A!AudioStart, hist[1]), hist[2]), hist[3])
  /\ wrote = [p \in A!Paths |-> <<>>] /\ got = <<>> /\ from = 0 /\ next = 1

Fill(n) == [k \in 1..n |-> next + k - 1]
Write == \E n \in {1, 3} : LET x == Fill(n * st.enc.ch) IN
  /\ Do([op |-> "write", x |-> x]) /\ next' = next + Len(x)
  /\ wrote' = IF st.enc.path = "" THEN wrote ELSE [wrote EXCEPT ![st.enc.path] = @ \o x]
  /\ UNCHANGED <<got, from>>
EOpen == \E p \in A!Paths \cup {"bad"} :
  /\ st.dec.path # p          \* a file being read is not rewritten
  /\ Do([op |-> "eopen", p |-> p]) /\ wrote' = (IF p \in A!Paths THEN [wrote EXCEPT ![p] = <<>>] ELSE wrote) /\ UNCHANGED <<got, from, next>>
EClose == Do([op |-> "eclose"]) /\ Same
NewEncoder == Do(E0(3 - st.enc.ch)) /\ Same
DOpen == \E p \in A!Paths \cup {"bad"} :
  /\ st.enc.path # p
  /\ Do([op |-> "dopen", p |-> p]) /\ got' = <<>> /\ from' = 0 /\ UNCHANGED <<wrote, next>>
DClose == Do([op |-> "dclose"]) /\ got' = <<>> /\ from' = 0 /\ UNCHANGED <<wrote, next>>
Seek == \E k \in {0, 2, 9} :
  /\ Do([op |-> "seek", k |-> k]) /\ got' = (IF st'.dec # st.dec \/ A!Returned(st, [op |-> "seek", k |-> k]) = k THEN <<>> ELSE got)
  /\ from' = (IF A!Returned(st, [op |-> "seek", k |-> k]) = k THEN k ELSE from) /\ UNCHANGED <<wrote, next>>
Read == \E n \in {2, 5} :
  /\ Do([op |-> "read", n |-> n]) /\ got' = got \o (IF st.dec.path = "" THEN <<>> ELSE A!Slice(st, n)) /\ UNCHANGED <<wrote, from, next>>

Next == Len(hist) < MaxLen /\ (Write \/ EOpen \/ EClose \/ NewEncoder \/ DOpen \/ DClose \/ Seek \/ Read)
Spec == Init /\ [][Next]_vars

\* a finished file holds exactly what was handed to its encoder
RoundTrip == \A p \in A!Paths : A!Exists(st, p) => st.files[p].data = wrote[p]
\* reading in pieces gives the file from where reading started
Pieces == st.dec.path # "" => LET f == A!File(st) IN st.dec.pos \in 0..A!Frames(f) /\ got = SubSeq(f.data, from * f.ch + 1, st.dec.pos * f.ch)
Whole == \A p \in A!Paths : Len(st.files[p].data) % st.files[p].ch = 0
\* a file is either being written or can be read
Exclusive == st.enc.path # "" => ~A!Exists(st, st.enc.path)
=================================================================================
