-------------------------------- MODULE StringsModel --------------------------------
(* Laws of the text utilities, on every text over an alphabet up to a length. *)
EXTENDS Strings, Json
CONSTANTS MaxLen, Alphabet, Delimiters, Tour
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in Alphabet : s' = Append(s, c)

Spec == Init /\ [][Next]_s

Idempotent == /\ Trim(Trim(s)) = Trim(s) /\ LTrim(RTrim(s)) = RTrim(LTrim(s))
              /\ Lower(Lower(s)) = Lower(s) /\ Upper(Lower(Upper(s))) = Upper(s) /\ Len(Lower(s)) = Len(s)
\* trimming removes white space only, and only from the ends
Ends == LET t == Trim(s) IN
        /\ t = <<>> \/ (t[1] \notin White /\ t[Len(t)] \notin White)
        /\ \E i \in 0..Len(s) : i + Len(t) <= Len(s) /\ t = SubSeq(s, i + 1, i + Len(t)) /\ \A k \in (1..i) \cup ((i + Len(t) + 1)..Len(s)) : s[k] \in White
SplitJoin == \A d \in Delimiters : LET p == Split(s, d) IN
               /\ \A k \in DOMAIN p : p[k] # <<>> /\ \A j \in DOMAIN p[k] : p[k][j] # d
               /\ Split(Join(p, d), d) = p
               /\ FlattenSeq(p) = SelectSeq(s, LAMBDA c : c # d)
JoinAll == \A d \in Delimiters : Join(Pieces(s, d, <<>>), d) = s
Emit == Tour => PrintT("GEN " \o ToJson(<<s>>))
======================================================================================
