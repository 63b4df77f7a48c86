-------------------------------- MODULE HeadersModel --------------------------------
(***************************************************************************)
(* Why standing alone is enough: in every system of N headers, where each  *)
(* declares one name, uses some names and includes some headers (also in   *)
(* circles), if every header compiles alone then every unit compiles, and  *)
(* what a unit knows depends neither on the order of its includes nor on   *)
(* repetitions; and a header which does not compile alone is found by      *)
(* compiling it alone, though other units hide it.                         *)
(***************************************************************************)
EXTENDS Headers, SequencesExt, Json
CONSTANTS N, Tour
VARIABLES uses, includes, unit
vars == <<uses, includes, unit>>

H == 1..N
Orders == UNION {[1..n -> H] : n \in 0..N}
\* headers in the order in which their own text is read
RECURSIVE Read(_, _)
Read(todo, opened) ==
  IF todo = <<>> THEN <<>>
  ELSE LET h == Head(todo) IN
       IF h < 0 THEN <<-h>> \o Read(Tail(todo), opened)                        \* its includes have been read, now its text
       ELSE IF h \in opened THEN Read(Tail(todo), opened)                      \* include guard
       ELSE Read(SetToSeq(includes[h]) \o <<-h>> \o Tail(todo), opened \cup {h})
Text(u) == Read(u, {})
Compiles(u) == LET t == Text(u) IN \A k \in 1..Len(t) : uses[t[k]] \subseteq {t[j] : j \in 1..(k - 1)} \cup {t[k]}
Knows(u) == {t \in H : \E k \in 1..Len(Text(u)) : Text(u)[k] = t}
Alone == \A h \in H : Compiles(<<h>>)
RECURSIVE Reach(_, _)
Reach(s, k) == IF k = 0 THEN s ELSE Reach(s \cup UNION {includes[h] : h \in s}, k - 1)

Others == {f \in [H -> SUBSET H] : \A h \in H : h \notin f[h]}
Init == uses \in Others /\ includes \in Others /\ unit = <<>>
Next == /\ Len(unit) < N
        /\ \E h \in H : unit' = Append(unit, h)
        /\ UNCHANGED <<uses, includes>>
Spec == Init /\ [][Next]_vars

Sound == Alone => Compiles(unit)
SameNames == Knows(unit) = Reach({unit[k] : k \in 1..Len(unit)}, N)
Once == LET t == Text(unit) IN \A j, k \in 1..Len(t) : t[j] = t[k] => j = k
Hidden == ~Alone => \E h \in H : ~Compiles(<<h>>)
\* the table: names are declared somewhere, what is gathered exists
Table == unit # <<>> \/ (/\ \A p \in Gathers : Known(p[2]) \subseteq Known(p[1])
                         /\ \A p \in Gathers : p[1] # p[2] /\ Known(p[2]) # {}
                         /\ \A p \in Declares : p[2] \in Known(p[1]))
Emit == (Tour /\ unit = <<>> /\ \A h \in H : uses[h] = {} /\ includes[h] = {}) =>
          \A h \in {p[1] : p \in Declares} \cup {p[1] : p \in Gathers} : PrintT("GEN " \o ToJson(<<h>> \o SetToSeq(Known(h))))
======================================================================================
