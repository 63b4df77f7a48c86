------------------------------------ MODULE Views ------------------------------------
(***************************************************************************)
(* Views of consecutive elements which belong to somebody else: of text    *)
(* (string_view) and of any elements (span).                               *)
(* State: the kind of view, the elements, the view as its position off in  *)
(* them and its length n (off = -1: it views nothing at all), and a second *)
(* view koff, kn of the same elements (text only).                         *)
(* A character is its non-negative code; -1 as a position or length is     *)
(* "no position", "to the end".                                            *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

ViewsStart == [kind |-> "none", mem |-> <<>>, off |-> -1, n |-> 0, koff |-> -1, kn |-> 0]

Part(mem, off, n) == IF n = 0 THEN <<>> ELSE SubSeq(mem, off + 1, off + n)
View(st) == Part(st.mem, st.off, st.n)
Kept(st) == Part(st.mem, st.koff, st.kn)
Min(a, b) == IF a < b THEN a ELSE b
Upto(n, most) == IF n < 0 THEN most ELSE Min(n, most)
Back(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Bit(b) == IF b THEN 1 ELSE 0

\* ---- order: the first difference decides, and a text comes after its beginnings
RECURSIVE Compare(_, _, _)
Compare(s, t, k) ==
  CASE k > Len(s) /\ k > Len(t) -> 0
    [] k > Len(s) -> -1
    [] k > Len(t) -> 1
    [] s[k] < t[k] -> -1
    [] s[k] > t[k] -> 1
    [] OTHER -> Compare(s, t, k + 1)
Order(s, t) == LET c == Compare(s, t, 1) IN <<Bit(c = 0), Bit(c # 0), Bit(c < 0), Bit(c <= 0), Bit(c > 0), Bit(c >= 0)>>

\* ---- searching, by what holds at a position counted from 0
In(s, i, x) == \E k \in DOMAIN x : x[k] = s[i + 1]
There(s, i, x) == i + Len(x) <= Len(s) /\ \A k \in DOMAIN x : s[i + k] = x[k]
First(S) == IF S = {} THEN -1 ELSE CHOOSE i \in S : \A j \in S : i <= j
Last(S) == IF S = {} THEN -1 ELSE CHOOSE i \in S : \A j \in S : i >= j
Find(o, s, x, p) ==
  LET from == {i \in 0..Len(s) : p >= 0 /\ i >= p}         \* at or after p
      upto == {i \in 0..Len(s) : p < 0 \/ i <= p}          \* at or before p
      one(S) == S \ {Len(s)}
  IN CASE o = "find"      -> First({i \in from : There(s, i, x)})
       [] o = "rfind"     -> Last({i \in upto : There(s, i, x)})
       [] o = "first_of"  -> First({i \in one(from) : In(s, i, x)})
       [] o = "first_not" -> First({i \in one(from) : ~In(s, i, x)})
       [] o = "last_of"   -> Last({i \in one(upto) : In(s, i, x)})
       [] o = "last_not"  -> Last({i \in one(upto) : ~In(s, i, x)})
Finds == {"find", "rfind", "first_of", "first_not", "last_of", "last_not"}

\* ---- operations which are refused, and what the others leave
Refused(st, e) ==
  CASE e.op = "at" -> e.k >= st.n
    [] e.op = "substr" -> e.p > st.n
    [] e.op = "copy" -> e.p > st.n
    [] e.op = "compare_part" -> e.p > st.n \/ e.p2 > Len(e.x)
    [] OTHER -> FALSE

To(st, off, n) == [st EXCEPT !.off = off, !.n = n]
Next(st, e) ==
  IF Refused(st, e) THEN st
  ELSE CASE e.op = "kind" -> [ViewsStart EXCEPT !.kind = e.kind]
         [] e.op = "text" -> [st EXCEPT !.mem = e.x, !.off = 0, !.n = Len(e.x), !.koff = 0, !.kn = Len(e.x)]
         [] e.op = "nothing" -> To(st, -1, 0)
         [] e.op = "view" -> To(st, e.k, e.n)
         [] e.op = "keep" -> [st EXCEPT !.koff = st.off, !.kn = st.n]
         [] e.op = "swap" -> [st EXCEPT !.off = st.koff, !.n = st.kn, !.koff = st.off, !.kn = st.n]
         [] e.op = "remove_prefix" -> To(st, st.off + e.n, st.n - e.n)
         [] e.op = "remove_suffix" -> To(st, st.off, st.n - e.n)
         [] e.op \in {"substr", "sub"} -> To(st, st.off + e.p, Upto(e.n, st.n - e.p))
         [] e.op = "first" -> To(st, st.off, e.n)
         [] e.op = "last" -> To(st, st.off + st.n - e.n, e.n)
         [] e.op = "write" -> [st EXCEPT !.mem[st.off + e.k + 1] = e.x]
         [] OTHER -> st

\* ---- what the operations answer
Pad(s, width, adjust) ==
  LET fill == [k \in 1..(IF width > Len(s) THEN width - Len(s) ELSE 0) |-> 42]
  IN IF adjust = "left" THEN s \o fill ELSE fill \o s
Sub(s, p, n) == Part(s, p, Upto(n, Len(s) - p))
\* the parts of a view of four elements which the operation "four" asks for: where each begins and its length
Parts4 == <<<<0, 4>>, <<0, 4>>, <<0, 4>>, <<0, 4>>, <<0, 4>>,
            <<1, 3>>, <<3, 1>>, <<4, 0>>, <<1, 2>>, <<2, 0>>,
            <<1, 3>>, <<4, 0>>, <<1, 2>>, <<0, 4>>,
            <<0, 3>>, <<1, 3>>, <<0, 1>>, <<3, 1>>, <<0, 4>>, <<4, 0>>,
            <<1, 2>>, <<2, 2>>>>
Said4(s, p, n) == <<IF n = 0 THEN 0 ELSE p, Sub(s, p, n), n, n, n = 0, Back(Sub(s, p, n))>>
Says(st, e) ==
  LET s == View(st)
  IN CASE e.op = "at" -> e.ret = s[e.k + 1]
       [] e.op = "copy" -> /\ LET m == Min(e.n, st.n - e.p)
                              IN e.ret = m /\ e.r = Sub(s, e.p, m) \o [k \in 1..(e.n - m) |-> 63]
                           /\ e.intact
       [] e.op \in Finds -> e.ret = Find(e.op, s, e.x, e.p)
       [] e.op = "compare" -> /\ e.ret = Compare(s, e.x, 1) /\ e.ends = e.ret
                              /\ e.r = Order(s, e.x) /\ e.rs = e.r /\ e.sr = Order(e.x, s)
                              /\ "edges" \in DOMAIN e =>
                                    LET b == Bit(There(s, 0, e.x))
                                        z == Bit(Len(e.x) <= st.n /\ There(s, st.n - Len(e.x), e.x))
                                    IN e.edges \in {<<b, z, b, z>>, <<b, z, b, z, b, z>>}
                              /\ e.rc = <<e.r[1], e.r[3], e.sr[1], e.sr[3]>>
       [] e.op = "compare_part" -> /\ e.ret = Compare(Sub(s, e.p, e.n), e.x, 1) /\ e.ends = e.ret /\ e.counted = e.ret
                                   /\ e.parts = Compare(Sub(s, e.p, e.n), Sub(e.x, e.p2, e.n2), 1)
       [] e.op = "stream" -> e.r = Pad(s, e.width, e.adjust) \o s
       [] e.op = "fixed" -> /\ e.r1 = Sub(s, 0, 2) /\ e.r2 = Sub(s, st.n - 2, 2) /\ e.r3 = Sub(s, 1, 1) /\ e.r4 = Sub(s, 1, -1) /\ e.r5 = e.r1
                            /\ e.offs = <<st.off, st.off + st.n - 2, st.off + 1, st.off + 1>>
       [] e.op = "four" -> \A k \in 1..Len(Parts4) : e.said[k] = Said4(SubSeq(s, 1, 4), Parts4[k][1], Parts4[k][2])
       [] e.op = "get" -> /\ e.past = 2 /\ e.swapped = s /\ e.hollow = <<>>
                          /\ e.r = IF st.n = 0 THEN <<>> ELSE <<s[e.k + 1], s[e.k + 1], s[1], s[st.n]>>
       [] e.op = "relate" -> e.r = Order(s, e.x)
       [] OTHER -> TRUE

\* ---- what can be seen of a view at any time
Whole(st, e) ==
  LET s == View(st)
  IN /\ e.fwd = s /\ e.rev = Back(s) /\ e.idx = s
     /\ e.size = <<st.n, st.n, st.n>> /\ e.empty = (st.n = 0)
     /\ IF st.mem = <<>> THEN e.off \in {-1, 0} ELSE e.off = st.off
     /\ IF st.kind = "text"
        THEN /\ e.str = s /\ e.kept = Kept(st)
             /\ st.n > 0 => e.tips = <<s[1], s[st.n]>>
        ELSE e.cfwd = s /\ e.crev = Back(s) /\ e.mem = st.mem

ViewsEval(st, e) ==
  LET n == Next(st, e)
  IN [st |-> n,
      ok |-> e.op = "kind" \/ /\ IF Refused(st, e) THEN e.thrown = "range"
                                 ELSE Says(st, e) /\ (st.kind = "text" => e.thrown = "no")
                              /\ Whole(n, e)]
=======================================================================================
