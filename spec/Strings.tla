---------------------------------- MODULE Strings ----------------------------------
(***************************************************************************)
(* Text utilities.  A text is a sequence of character codes (bytes, or     *)
(* wide characters), all of which are ordinary data, zero included.        *)
(* Stateless: every operation is a function of its arguments.              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, TLC

White == {9, 10, 11, 12, 13, 32}
RECURSIVE LTrim(_), RTrim(_)
LTrim(s) == IF s # <<>> /\ s[1] \in White THEN LTrim(Tail(s)) ELSE s
RTrim(s) == IF s # <<>> /\ s[Len(s)] \in White THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == LTrim(RTrim(s))

LowerOf(c) == IF c \in 65..90 THEN c + 32 ELSE c
UpperOf(c) == IF c \in 97..122 THEN c - 32 ELSE c
Lower(s) == [k \in 1..Len(s) |-> LowerOf(s[k])]
Upper(s) == [k \in 1..Len(s) |-> UpperOf(s[k])]

\* one delimiter between consecutive parts
RECURSIVE Join(_, _)
Join(parts, d) == CASE Len(parts) = 0 -> <<>>
                    [] Len(parts) = 1 -> parts[1]
                    [] OTHER -> parts[1] \o <<d>> \o Join(Tail(parts), d)

\* the maximal pieces without delimiter; empty pieces are dropped
RECURSIVE Pieces(_, _, _)
Pieces(s, d, piece) == IF s = <<>> THEN <<piece>>
                       ELSE IF s[1] = d THEN <<piece>> \o Pieces(Tail(s), d, <<>>)
                       ELSE Pieces(Tail(s), d, Append(piece, s[1]))
Split(s, d) == SelectSeq(Pieces(s, d, <<>>), LAMBDA p : p # <<>>)

\* the parts of a text given as one text and the lengths of the parts
RECURSIVE Cut(_, _)
Cut(s, n) == IF n = <<>> THEN <<>> ELSE <<SubSeq(s, 1, n[1])>> \o Cut(SubSeq(s, n[1] + 1, Len(s)), Tail(n))

\* ---- conformance ------------------------------------------------------------------------------------------------
StringsStart == 0
StringsEval(st, e) ==
  [ st |-> st,
    ok |-> CASE e.op = "trim" -> e.ret = Trim(e.x)
             [] e.op = "ltrim" -> e.ret = LTrim(e.x)
             [] e.op = "rtrim" -> e.ret = RTrim(e.x)
             [] e.op = "lower" -> e.ret = Lower(e.x) /\ e.kept
             [] e.op = "upper" -> e.ret = Upper(e.x) /\ e.kept
             [] e.op = "join" -> e.ret = Join(Cut(e.x, e.n), e.d) /\ e.kept
             [] e.op = "split" -> e.ret = Split(e.x, e.d) /\ e.kept ]
=====================================================================================
