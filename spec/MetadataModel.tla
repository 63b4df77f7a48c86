-------------------------------- MODULE MetadataModel --------------------------------
(* Histories of two files, their tags, and a reader; and the laws of the encoding. *)
EXTENDS Metadata, Json
CONSTANTS MaxLen, Paths, Texts, Numbers, Tour
MCTexts == {<<>>, <<97>>, <<233, 20013, 128512>>}
VARIABLES st, hist
vars == <<st, hist>>
Rec(t, y) == [title |-> t, artist |-> Reverse(t), album |-> t \o t, genre |-> IF t = <<>> THEN t ELSE <<71>> \o t, year |-> y, track |-> y % 100]
Do(new, op) == st' = new /\ hist' = Append(hist, op)
Init == st = Init0 /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E p \in Paths :
             \/ Do(Make(st, p), [op |-> "make", p |-> p])
             \/ Do(Junk(st, p), [op |-> "junk", p |-> p])
             \/ FileOf(st, p).kind # "none" /\ Do(Delete(st, p), [op |-> "remove", p |-> p])
             \/ \E t \in Texts, y \in Numbers : FileOf(st, p).kind = "audio" /\ Do(Tagged(st, p, Rec(t, y)), [op |-> "tag", p |-> p, t |-> Rec(t, y)])
             \/ Do(Open(st, p), [op |-> "open", p |-> p])
Spec == Init /\ [][Next]_vars

\* what the reader shows is what some file held when it was opened: nothing if it held no tag
RECURSIVE Replay(_)
Replay(h) == IF h = <<>> THEN Init0
             ELSE LET s == Replay(SubSeq(h, 1, Len(h) - 1)) o == h[Len(h)] IN
                  CASE o.op = "make" -> Make(s, o.p) [] o.op = "junk" -> Junk(s, o.p) [] o.op = "remove" -> Delete(s, o.p)
                    [] o.op = "tag" -> Tagged(s, o.p, o.t) [] OTHER -> Open(s, o.p)
LastWhere(h, P(_)) == LET K == {k \in 1..Len(h) : P(h[k])} IN IF K = {} THEN 0 ELSE CHOOSE k \in K : \A j \in K : j <= k
Meaning == LET n == LastWhere(hist, LAMBDA o : o.op = "open") IN
           IF n = 0 THEN st.reader = Blank
           ELSE LET h == SubSeq(hist, 1, n - 1)
                    m == LastWhere(h, LAMBDA o : o.op # "open" /\ o.p = hist[n].p)
                IN st.reader = IF m = 0 \/ h[m].op # "tag" THEN Blank ELSE h[m].t
NoTagNoText == \A p \in DOMAIN st.files : st.files[p].kind # "audio" => st.files[p].tag = Blank
Encoded == \A k \in {"title", "artist", "album", "genre"} : /\ FromUtf8(Shown(st)[k]) = st.reader[k]
                                                            /\ \A b \in Range(Shown(st)[k]) : b \in 1..255
Ranged == \A c \in {1, 127, 128, 2047, 2048, 65535, 65536, 1114111} : FromUtf8(Bytes(c)) = <<c>> /\ Bytes(c)[1] \notin 128..193
Emit == Tour => PrintT("GEN " \o ToJson(hist))
======================================================================================
