---------------------------------- MODULE Audio ----------------------------------
(***************************************************************************)
(* Audio files written by an encoder and read by a decoder.                *)
(* State: the files (complete once their encoder has been closed), one     *)
(* encoder and one decoder.                                                *)
(*   file    [type, ch, rate, data]  interleaved samples, or NoFile        *)
(*   encoder [type, ch, rate, path, data], path = "" when it is closed     *)
(*   decoder [type, path, pos], pos in frames, path = "" when it is closed *)
(* An encoder that is closed, reopened, replaced or destroyed finishes the *)
(* file it was writing.  Paths are "a", "b", ... and "bad", which cannot   *)
(* be created.                                                             *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FReal, TLC

Paths == {"a", "b"}
NoFile == [type |-> "none", ch |-> 1, rate |-> 0, data |-> <<>>]
NoEncoder == [type |-> "none", ch |-> 1, rate |-> 0, path |-> "", data |-> <<>>]
NoDecoder == [type |-> "none", path |-> "", pos |-> 0]
AudioStart == [files |-> [p \in Paths |-> NoFile], enc |-> NoEncoder, dec |-> NoDecoder]

Exists(st, p) == p \in Paths /\ st.files[p] # NoFile
Finish(st) ==
  IF st.enc.path = "" THEN st
  ELSE [st EXCEPT !.files[st.enc.path] = [type |-> st.enc.type, ch |-> st.enc.ch, rate |-> st.enc.rate, data |-> st.enc.data],
                  !.enc.path = "", !.enc.data = <<>>]
File(st) == st.files[st.dec.path]
Frames(f) == Len(f.data) \div f.ch
Least(a, b) == IF a < b THEN a ELSE b

\* How many samples a read of n gives: whole frames, up to the end.
ReadCount(st, n) == IF st.dec.path = "" THEN 0 ELSE LET f == File(st) IN f.ch * Least(n \div f.ch, Frames(f) - st.dec.pos)

Step(st, e) ==
  CASE e.op = "encoder" -> [Finish(st) EXCEPT !.enc = [type |-> e.type, ch |-> e.ch, rate |-> e.rate, path |-> "", data |-> <<>>]]
    [] e.op = "eopen"   -> LET s == Finish(st) IN IF e.p \in Paths THEN [s EXCEPT !.enc.path = e.p, !.files[e.p] = NoFile] ELSE s
    [] e.op = "eclose"  -> Finish(st)
    [] e.op = "write"   -> IF st.enc.path = "" THEN st ELSE [st EXCEPT !.enc.data = @ \o e.x]
    [] e.op = "decoder" -> [st EXCEPT !.dec = [type |-> e.type, path |-> "", pos |-> 0]]
    [] e.op = "dopen"   -> [st EXCEPT !.dec.path = IF Exists(st, e.p) THEN e.p ELSE "", !.dec.pos = 0]
    [] e.op = "dclose"  -> [st EXCEPT !.dec.path = "", !.dec.pos = 0]
    [] e.op = "seek"    -> IF st.dec.path # "" /\ 0 <= e.k /\ e.k <= Frames(File(st)) THEN [st EXCEPT !.dec.pos = e.k] ELSE st
    [] e.op = "read"    -> IF st.dec.path = "" THEN st ELSE [st EXCEPT !.dec.pos = @ + ReadCount(st, e.n) \div File(st).ch]

Returned(st, e) ==
  CASE e.op = "eopen" -> e.p \in Paths
    [] e.op = "dopen" -> Exists(st, e.p)
    [] e.op = "write" -> IF st.enc.path = "" THEN 0 ELSE Len(e.x)
    [] e.op = "seek"  -> IF st.dec.path # "" /\ 0 <= e.k /\ e.k <= Frames(File(st)) THEN e.k ELSE -1
    [] e.op = "read"  -> ReadCount(st, e.n)
Returns(e) == e.op \in {"eopen", "dopen", "write", "seek", "read"}

\* a sample written as type w and read as type r
Sample(w, r, v) ==
  CASE w = r -> v
    [] w = "f" /\ r = "d" -> v
    [] w = "d" /\ r = "f" -> RFloat(v)
    [] w = "i16" /\ r \in {"f", "d"} -> RDiv(v, 32768)
    [] w = "i32" /\ r = "d" -> RDiv(v, RPow(2, 31))
    [] w = "i32" /\ r = "f" -> RFloat(RDiv(v, RPow(2, 31)))
    [] w = "i16" /\ r = "i32" -> v * 65536
    [] w = "i32" /\ r = "i16" -> v \div 65536
Slice(st, n) == LET f == File(st) IN SubSeq(f.data, st.dec.pos * f.ch + 1, st.dec.pos * f.ch + ReadCount(st, n))
Same(w, r, x, v) == IF r \in {"i16", "i32"} THEN x = Sample(w, r, v) ELSE REq(x, Sample(w, r, v))

\* Every coder holds one open file while it is open and none otherwise.
Held(s) == (IF s.enc.path # "" THEN 1 ELSE 0) + (IF s.dec.path # "" THEN 1 ELSE 0)

Reported(s, e) ==
  /\ e.eopened = (s.enc.path # "")
  /\ s.enc.type # "none" => e.ech = s.enc.ch /\ REq(e.erate, s.enc.rate)
  /\ e.dopened = (s.dec.path # "")
  /\ s.dec.path # "" => LET f == File(s) IN /\ e.frames = Frames(f) /\ e.samples = Len(f.data) /\ e.dch = f.ch /\ REq(e.drate, f.rate)
                                            /\ e.seekable /\ e.pos = s.dec.pos
  /\ s.dec.path = "" => e.pos = -1
  /\ e.held = Held(s)

AudioEval(st, e) ==
  LET s == Step(st, e)
  IN [st |-> s,
      ok |-> /\ Reported(s, e)
             /\ Returns(e) => e.ret = Returned(st, e)
             /\ e.op = "read" => /\ e.intact
                                 /\ Len(e.r) = e.ret
                                 /\ e.ret > 0 => LET w == Slice(st, e.n) IN \A k \in 1..Len(w) : Same(File(st).type, st.dec.type, e.r[k], w[k])]
===================================================================================
