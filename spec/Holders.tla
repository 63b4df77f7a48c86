----------------------------------- MODULE Holders -----------------------------------
(***************************************************************************)
(* The types which hold one value of one type at a time.                   *)
(* State: the class at hand and two objects of it, each                    *)
(*   [t, v]  the type of the value it holds (A, B: classes; I: int) and    *)
(*           the value; t = "none" when it holds nothing, "gone" when      *)
(*           there is no such object.                                      *)
(* optional  an A or nothing        expected  an A, or a B for the error   *)
(* any       anything or nothing    variant   an A, B or I; nothing only   *)
(*                                            after a failed assignment    *)
(* small     a variant of three plain types U, S, H (one byte, one byte,   *)
(*           two bytes)                                                    *)
(* The value 13 of a class cannot be copied; -1 is left behind by a move.  *)
(* Every held value is an object which exists exactly as long as it is     *)
(* held: nothing is constructed twice, kept too long or ended twice.       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC

Kinds == {"optional", "expected", "any", "variant", "small"}
Tags(k) == CASE k = "optional" -> {"A"} [] k = "expected" -> {"A", "B"} [] k = "small" -> {"U", "S", "H"} [] OTHER -> {"A", "B", "I"}
Nothing == [t |-> "none", v |-> 0]
Gone == [t |-> "gone", v |-> 0]
Val(t, v) == [t |-> t, v |-> v]
Fresh(k) == IF k \in {"optional", "any"} THEN Nothing ELSE Val(IF k = "small" THEN "U" ELSE "A", 0)
HoldersStart == [kind |-> "none", a |-> Gone, b |-> Gone]

Classes == {"A", "B"}
Stuck(c) == c.t \in Classes /\ c.v = 13          \* cannot be copied
Copying == {"assign", "assign_lvalue", "build", "build_lvalue"}
Moving == {"assign_move", "build_move"}
Other(s) == IF s = "a" THEN "b" ELSE "a"

\* what may remain of an object whose assignment failed
Failed(k, c, build) == {c} \cup (IF k = "variant" /\ ~build THEN {Nothing} ELSE {})
\* what a move leaves behind
Left(k, c) == LET m == IF c.t \in Classes THEN Val(c.t, -1) ELSE c IN IF k = "any" THEN {m, Nothing} ELSE {m}

\* whether the operation fails because something cannot be copied
Fails(st, e) ==
  CASE e.op = "put"  -> e.how \in Copying /\ Stuck(Val(e.tag, e.x))
    [] e.op = "copy" -> Stuck(st[Other(e.s)])
    [] e.op = "or"   -> Stuck(st[e.s]) /\ st[e.s].t = "A"
    [] OTHER -> FALSE

\* The states in which an operation may end.
After(st, e) ==
  LET me == IF e.op = "kind" THEN Gone ELSE st[e.s]
      o == IF e.op = "kind" THEN Gone ELSE st[Other(e.s)]
      Me(c) == [st EXCEPT ![e.s] = c]
      Both(c, d) == [st EXCEPT ![e.s] = c, ![Other(e.s)] = d]
  IN CASE e.op = "kind"  -> {[kind |-> e.kind, a |-> Gone, b |-> Gone]}
       [] e.op = "new"   -> {Me(Fresh(st.kind))}
       [] e.op = "drop"  -> {Me(Gone)}
       [] e.op = "put"   -> IF Fails(st, e) THEN {Me(c) : c \in Failed(st.kind, me, e.how \in {"build", "build_lvalue"})} ELSE {Me(Val(e.tag, e.x))}
       [] e.op = "clear" -> {Me(Nothing)}
       [] e.op = "set"   -> {Me(IF me.t = e.tag THEN Val(e.tag, e.x) ELSE me)}
       [] e.op = "copy"  -> IF Fails(st, e) THEN {Me(c) : c \in Failed(st.kind, me, e.build = 1)} ELSE {Me(o)}
       [] e.op = "move"  -> {Both(o, d) : d \in Left(st.kind, o)}
       [] e.op = "swap"  -> {Both(o, me)}
       [] OTHER -> {st}

\* ---- what the operations say
Place(t) == CASE t = "none" -> 0 [] t \in {"A", "U"} -> 1 [] t \in {"B", "S"} -> 2 [] t \in {"I", "H"} -> 3
Less(c, d) == Place(c.t) < Place(d.t) \/ (c.t = d.t /\ c.t # "none" /\ c.v < d.v)
Equal(c, d) == c.t = d.t /\ (c.t = "none" \/ c.v = d.v)
Bit(b) == IF b THEN 1 ELSE 0
Order(c, d) == <<Bit(Equal(c, d)), Bit(~Equal(c, d)), Bit(Less(c, d)), Bit(~Less(d, c)), Bit(Less(d, c)), Bit(~Less(c, d))>>
Alike(c, d) == <<Bit(Equal(c, d)), Bit(~Equal(c, d))>>
\* of an expected and another of which one at least is not an error: an error is less than any value
Upside(d, c) == IF c.t = d.t THEN Order(c, d) ELSE Order(d, c)
Named(c) == c.t \o ToString(c.v)

\* asking for what is not there; the failure of an expected carries a copy of its error
Wrong(st, e) == IF st.kind = "expected" /\ e.tag = "A" /\ Stuck(st[e.s]) THEN "boom" ELSE "wrong"

Says(st, e) ==
  LET me == st[e.s]  o == st[Other(e.s)]
  IN CASE e.op = "put" -> \/ e.how \in {"emplace", "in_place"}
                          \/ /\ e.thrown = (IF Fails(st, e) THEN "boom" ELSE "no")
                             /\ e.src = e.x \/ (e.how \in Moving /\ e.src = -1 /\ e.tag \in Classes)
       [] e.op \in {"copy", "move", "swap"} -> e.thrown = (IF Fails(st, e) THEN "boom" ELSE "no")
       [] e.op = "self" -> e.thrown = "no" \/ Stuck(me)
       [] e.op = "get" -> IF me.t = e.tag THEN e.thrown = "no" /\ e.ret = me.v ELSE e.thrown = Wrong(st, e)
       [] e.op = "set" -> e.thrown = (IF me.t = e.tag THEN "no" ELSE Wrong(st, e))
       [] e.op = "or"  -> IF Fails(st, e) THEN e.thrown = "boom" ELSE e.thrown = "no" /\ e.ret = (IF me.t = "A" THEN me.v ELSE e.x)
       [] e.op = "cmp" -> (CASE st.kind = "optional" -> /\ e.r = Order(me, o)
                                                       /\ e.rv = Order(me, Val("A", e.x))
                                                       /\ e.vr = Order(Val("A", e.x), me)
                                                       /\ e.rn = <<Bit(me.t = "none"), Bit(me.t # "none")>>
                            [] st.kind = "expected" -> /\ IF me.t = "B" /\ o.t = "B" THEN SubSeq(e.r, 1, 2) = Alike(me, o) ELSE e.r = Upside(o, me)
                                                       /\ e.rv = Upside(Val("A", e.x), me)
                                                       /\ e.vr = Upside(me, Val("A", e.x))
                                                       /\ e.ru = Alike(me, Val("B", e.x)) \o Alike(me, Val("B", e.x))
                            [] st.kind \in {"variant", "small"} -> e.r = Order(me, o))
       [] e.op = "visit" -> IF me.t = "none" THEN e.r1 = "wrong"
                            ELSE IF o.t = "none" THEN e.r2 = "wrong"
                            ELSE e.r1 = Named(me) /\ e.r2 = Named(me) \o "_" \o Named(o)
       [] OTHER -> TRUE

Alive(st) == Bit(st.a.t \in Classes) + Bit(st.b.t \in Classes)
Seen(st, e) == IF e.op = "kind" THEN [st EXCEPT !.kind = e.kind, !.a = Gone, !.b = Gone]
               ELSE [st EXCEPT !.a = Val(e.at, e.av), !.b = Val(e.bt, e.bv)]

HoldersEval(st, e) ==
  LET n == Seen(st, e)
  IN [st |-> n,
      ok |-> /\ n \in After(st, e)
             /\ e.op # "kind" => Says(st, e)
             /\ e.alive = Alive(n)
             /\ ~e.broken]
=======================================================================================
