---------------------------------- MODULE Metadata ----------------------------------
(***************************************************************************)
(* The reader of an audio file's tags.                                     *)
(* State: what the files hold, and what the reader saw when it was made.   *)
(* A tag's texts are sequences of Unicode code points; the reader gives    *)
(* them as UTF-8.  A file without tag, a file that is no audio, and a file *)
(* that does not exist have empty texts and zero year and track.           *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, TLC

\* ---- UTF-8 ---------------------------------------------------------------------------------------------
Cont(c, k) == 128 + ((c \div k) % 64)
Bytes(c) == CASE c < 128 -> <<c>>
              [] c < 2048 -> <<192 + (c \div 64), Cont(c, 1)>>
              [] c < 65536 -> <<224 + (c \div 4096), Cont(c, 64), Cont(c, 1)>>
              [] OTHER -> <<240 + (c \div 262144), Cont(c, 4096), Cont(c, 64), Cont(c, 1)>>
Utf8(s) == FlattenSeq([k \in 1..Len(s) |-> Bytes(s[k])])
\* the number of bytes a character has, from the first one
Width(b) == CASE b < 128 -> 1 [] b < 224 -> 2 [] b < 240 -> 3 [] OTHER -> 4
Value(t, w) == CASE w = 1 -> t[1]
                 [] w = 2 -> (t[1] - 192) * 64 + (t[2] - 128)
                 [] w = 3 -> (t[1] - 224) * 4096 + (t[2] - 128) * 64 + (t[3] - 128)
                 [] OTHER -> (t[1] - 240) * 262144 + (t[2] - 128) * 4096 + (t[3] - 128) * 64 + (t[4] - 128)
RECURSIVE FromUtf8(_)
FromUtf8(t) == IF t = <<>> THEN <<>> ELSE LET w == Width(t[1]) IN <<Value(t, w)>> \o FromUtf8(SubSeq(t, w + 1, Len(t)))

\* ---- state ---------------------------------------------------------------------------------------------
Blank == [title |-> <<>>, artist |-> <<>>, album |-> <<>>, genre |-> <<>>, year |-> 0, track |-> 0]
NoFile == [kind |-> "none", tag |-> Blank]
Init0 == [files |-> [p \in {} |-> NoFile], reader |-> Blank]
FileOf(st, p) == IF p \in DOMAIN st.files THEN st.files[p] ELSE NoFile
Put(st, p, f) == [st EXCEPT !.files = [q \in (DOMAIN @) \cup {p} |-> IF q = p THEN f ELSE @[q]]]

Make(st, p) == Put(st, p, [kind |-> "audio", tag |-> Blank])       \* an audio file without tag
Junk(st, p) == Put(st, p, [kind |-> "other", tag |-> Blank])       \* something else
Delete(st, p) == Put(st, p, NoFile)
\* writes the tag of an audio file
Tagged(st, p, t) == IF FileOf(st, p).kind = "audio" THEN Put(st, p, [kind |-> "audio", tag |-> t]) ELSE st
Open(st, p) == [st EXCEPT !.reader = FileOf(st, p).tag]
Shown(st) == [k \in DOMAIN Blank |-> IF k \in {"year", "track"} THEN st.reader[k] ELSE Utf8(st.reader[k])]

\* ---- conformance ---------------------------------------------------------------------------------------
MetadataStart == Init0
TagOf(e) == [title |-> e.title, artist |-> e.artist, album |-> e.album, genre |-> e.genre, year |-> e.year, track |-> e.track]
MetadataEval(st, e) ==
  CASE e.op = "make" -> [st |-> Make(st, e.p), ok |-> e.done]
    [] e.op = "junk" -> [st |-> Junk(st, e.p), ok |-> e.done]
    [] e.op = "remove" -> [st |-> Delete(st, e.p), ok |-> TRUE]
    [] e.op = "tag" -> [st |-> Tagged(st, e.p, TagOf(e)), ok |-> e.done = (FileOf(st, e.p).kind = "audio")]
    [] e.op = "open" -> [st |-> Open(st, e.p), ok |-> e.kept]
    [] e.op = "title" -> [st |-> st, ok |-> e.ret = Shown(st).title]
    [] e.op = "artist" -> [st |-> st, ok |-> e.ret = Shown(st).artist]
    [] e.op = "album" -> [st |-> st, ok |-> e.ret = Shown(st).album]
    [] e.op = "genre" -> [st |-> st, ok |-> e.ret = Shown(st).genre]
    [] e.op = "year" -> [st |-> st, ok |-> e.ret = Shown(st).year]
    [] e.op = "track" -> [st |-> st, ok |-> e.ret = Shown(st).track]
=====================================================================================
