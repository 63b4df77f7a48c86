-------------------------------- MODULE TypeTraits --------------------------------
(***************************************************************************)
(* The type transformations of edsp::meta.  A type is a sequence of        *)
(* levels, the innermost (a core type) first; every level is a kind with   *)
(* its qualifiers:                                                         *)
(*   [k |-> "int", c |-> const?, v |-> volatile?]   core types             *)
(*   "ptr", "lref", "rref", "arr" (of three elements), "open" (unbounded)  *)
(* References are never qualified, and the qualifiers of an array are      *)
(* those of its elements.  A program is a core type and the                *)
(* transformations applied to it one after another.                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

L(k, c, v) == [k |-> k, c |-> c, v |-> v]
Plain(k) == L(k, FALSE, FALSE)
Last(t) == t[Len(t)]
Front(t) == SubSeq(t, 1, Len(t) - 1)
SetLast(t, l) == Front(t) \o <<l>>

IsRef(t) == Last(t).k \in {"lref", "rref"}
IsArray(t) == Last(t).k \in {"arr", "open"}
IsCore(t) == Len(t) = 1

RECURSIVE Qualify(_, _, _)
\* set (or leave) qualifiers: c and v are "on", "off" or "keep"
Flag(q, old) == CASE q = "on" -> TRUE [] q = "off" -> FALSE [] OTHER -> old
Qualify(t, c, v) ==
  IF IsRef(t) THEN t
  ELSE IF IsArray(t) THEN Append(Qualify(Front(t), c, v), Last(t))
  ELSE SetLast(t, [Last(t) EXCEPT !.c = Flag(c, @), !.v = Flag(v, @)])

NoRef(t) == IF IsRef(t) THEN Front(t) ELSE t
AddL(t) == Append(NoRef(t), Plain("lref"))
AddR(t) == IF IsRef(t) THEN t ELSE Append(t, Plain("rref"))       \* references collapse
RECURSIVE NoExtents(_)
NoExtents(t) == IF IsArray(t) THEN NoExtents(Front(t)) ELSE t

\* integral core types, and what they are signed and unsigned; an enumeration is as wide as what it is made of
Integral == {"char", "schar", "uchar", "short", "ushort", "int", "uint", "long", "ulong"}
SignedOf == [char |-> "schar", schar |-> "schar", uchar |-> "schar", short |-> "short", ushort |-> "short", int |-> "int", uint |-> "int", long |-> "long", ulong |-> "long", enum |-> "short"]
UnsignedOf == [char |-> "uchar", schar |-> "uchar", uchar |-> "uchar", short |-> "ushort", ushort |-> "ushort", int |-> "uint", uint |-> "uint", long |-> "ulong", ulong |-> "ulong", enum |-> "ushort"]
CanSign(t) == IsCore(t) /\ t[1].k \in Integral \cup {"enum"}

Unary == {"remove_cv", "remove_const", "remove_volatile", "add_cv", "add_const", "add_volatile", "remove_reference", "add_lvalue_reference", "add_rvalue_reference",
          "remove_pointer", "add_pointer", "make_signed", "make_unsigned", "remove_extent", "remove_all_extents", "decay"}
Applies(op, t) == op \in {"make_signed", "make_unsigned"} => CanSign(t)
Apply(op, t) ==
  CASE op = "remove_cv" -> Qualify(t, "off", "off")
    [] op = "remove_const" -> Qualify(t, "off", "keep")
    [] op = "remove_volatile" -> Qualify(t, "keep", "off")
    [] op = "add_cv" -> Qualify(t, "on", "on")
    [] op = "add_const" -> Qualify(t, "on", "keep")
    [] op = "add_volatile" -> Qualify(t, "keep", "on")
    [] op = "remove_reference" -> NoRef(t)
    [] op = "add_lvalue_reference" -> AddL(t)
    [] op = "add_rvalue_reference" -> AddR(t)
    [] op = "remove_pointer" -> IF Last(t).k = "ptr" THEN Front(t) ELSE t
    [] op = "add_pointer" -> Append(NoRef(t), Plain("ptr"))
    [] op = "make_signed" -> <<[t[1] EXCEPT !.k = SignedOf[@]]>>
    [] op = "make_unsigned" -> <<[t[1] EXCEPT !.k = UnsignedOf[@]]>>
    [] op = "remove_extent" -> IF IsArray(t) THEN Front(t) ELSE t
    [] op = "remove_all_extents" -> NoExtents(t)
    [] op = "decay" -> LET n == NoRef(t) IN IF IsArray(n) THEN Append(Front(n), Plain("ptr")) ELSE Qualify(n, "off", "off")

\* how a type is written down, from the inside out
RECURSIVE Say(_)
Word(l) == l.k \o (IF l.c THEN " const" ELSE "") \o (IF l.v THEN " volatile" ELSE "")
Say(t) == IF Len(t) = 1 THEN Word(t[1]) ELSE Say(Front(t)) \o " " \o Word(Last(t))

\* ---- two arithmetic types: the usual conversions (sixty-four-bit longs) ----
Arithmetic == Integral \cup {"float", "double", "ldouble"}
Rank == [char |-> 1, schar |-> 1, uchar |-> 1, short |-> 2, ushort |-> 2, int |-> 3, uint |-> 3, long |-> 4, ulong |-> 4]
Real == [float |-> 1, double |-> 2, ldouble |-> 3]
Promoted(k) == IF Rank[k] < 3 THEN "int" ELSE k
Common(a, b) ==
  IF a = b THEN a
  ELSE IF a \in DOMAIN Real \/ b \in DOMAIN Real
       THEN IF a \notin DOMAIN Real THEN b ELSE IF b \notin DOMAIN Real THEN a ELSE IF Real[a] > Real[b] THEN a ELSE b
  ELSE LET p == Promoted(a) q == Promoted(b) IN
       IF Rank[p] > Rank[q] THEN p ELSE IF Rank[q] > Rank[p] THEN q ELSE IF p = q THEN p ELSE UnsignedOf[p]

\* ---- what a program starts from ----
C(k) == L(k, TRUE, FALSE)
Begin(name) ==
  CASE name = "c_int" -> <<C("int")>>
    [] name = "v_double" -> <<L("double", FALSE, TRUE)>>
    [] name = "cv_ulong" -> <<L("ulong", TRUE, TRUE)>>
    [] name = "cv_enum" -> <<L("enum", TRUE, TRUE)>>
    [] name = "pointer" -> <<Plain("int"), Plain("ptr")>>
    [] name = "c_pointer_c" -> <<C("record"), C("ptr")>>
    [] name = "lref" -> <<Plain("uint"), Plain("lref")>>
    [] name = "c_lref" -> <<C("int"), Plain("lref")>>
    [] name = "rref" -> <<Plain("record"), Plain("rref")>>
    [] name = "array" -> <<Plain("int"), Plain("arr")>>
    [] name = "c_matrix" -> <<C("char"), Plain("arr"), Plain("arr")>>
    [] name = "open" -> <<Plain("double"), Plain("open")>>
    [] name = "array_ref" -> <<Plain("int"), Plain("arr"), Plain("lref")>>
    [] name = "pointer_array" -> <<C("int"), Plain("ptr"), Plain("arr")>>
    [] OTHER -> <<Plain(name)>>
Cores == Arithmetic \cup {"record", "enum", "bool"}
Starts == Cores \cup {"c_int", "v_double", "cv_ulong", "cv_enum", "pointer", "c_pointer_c", "lref", "c_lref", "rref", "array", "c_matrix", "open", "array_ref", "pointer_array"}

\* functions of the harness: what they give for the arguments named
Result(f) == CASE f = "twice" -> <<Plain("double")>> [] f = "name" -> <<C("char"), Plain("ptr")>> [] f = "object" -> <<Plain("record"), Plain("lref")>>

TypeTraitsStart == <<Plain("int")>>
TypeTraitsEval(st, e) ==
  CASE e.op = "begin" -> LET t == Begin(e.t) IN [st |-> t, ok |-> e.is = Say(t)]
    [] e.op = "apply" -> LET t == Apply(e.f, st) IN [st |-> t, ok |-> Applies(e.f, st) /\ e.is = Say(t)]
    [] e.op = "common" -> [st |-> st, ok |-> e.is = Common(e.a, e.b)]
    [] e.op = "either" -> [st |-> st, ok |-> e.is = Say(Begin(IF e.cond = 1 THEN e.a ELSE e.b))]
    [] e.op = "enabled" -> [st |-> st, ok |-> e.ret = (e.cond = 1) /\ (e.ret => e.is = Say(Begin(e.a)))]
    [] e.op = "underlying" -> [st |-> st, ok |-> e.is = e.a]
    [] e.op = "result" -> [st |-> st, ok |-> e.is = Say(Result(e.a))]
===================================================================================
