------------------------------------ MODULE Meta ------------------------------------
(***************************************************************************)
(* The uniform access to containers, arrays, lists of initializers and     *)
(* pointers, and the checks of conditions.                                 *)
(* State: the elements of the object at hand, whose kind decides what can  *)
(* be asked, and the level from which messages are shown.  data gives the  *)
(* very elements of the object: what is written through it is seen by      *)
(* every other way of asking.  A broken condition is reported once, at the *)
(* critical level, and ends the program where assertions are on.           *)
(***************************************************************************)
EXTENDS FReal, Sequences, Integers, TLC

Writable == {"vector", "array", "stdarray", "pointer"}
Kinds == Writable \cup {"cvector", "carray", "il", "list", "cpointer", "string"}
Sized == Kinds \ {"pointer", "cpointer"}
Direct == Kinds \ {"list"}                     \* elements in a row
Fixed == {"array", "carray", "stdarray"}       \* never empty here

Has(k, op) == CASE op = "put" -> k \in Writable
                [] op = "get" -> k \in Direct
                [] op \in {"size", "empty"} -> k \in Sized
                [] op = "null" -> k \in {"array", "carray", "il", "pointer", "cpointer"}
                [] op \in {"contains", "advance", "all"} -> TRUE

Limit == [double |-> RPow(R(2), -52), float |-> RPow(R(2), -23)]
Alike(t, a, b) == CASE t = "int" -> a = b
                    [] OTHER -> REq(a, b) \/ RLt(RAbs(RSub(a, b)), Limit[t])

Levels == <<"trace", "debug", "info", "warning", "error", "critical", "off">>
Shown(level) == level # "off"

\* ---- types ----
\* what the traits say of a type: <<iterator, category, char, signed, unsigned>>
T == TRUE
F == FALSE
Types == [ pointer |-> <<T, "random", F, F, F>>, vector_it |-> <<T, "random", F, F, F>>, const_vector_it |-> <<T, "random", F, F, F>>, deque_it |-> <<T, "random", F, F, F>>,
           list_it |-> <<T, "bidirectional", F, F, F>>, map_it |-> <<T, "bidirectional", F, F, F>>, forward_list_it |-> <<T, "forward", F, F, F>>, unordered_it |-> <<T, "forward", F, F, F>>,
           istream_it |-> <<T, "input", F, F, F>>, ostream_it |-> <<T, "output", F, F, F>>, back_inserter |-> <<T, "output", F, F, F>>, reverse_it |-> <<T, "random", F, F, F>>,
           vector |-> <<F, "none", F, F, F>>, string |-> <<F, "none", F, F, F>>, record |-> <<F, "none", F, F, F>>, bool |-> <<F, "none", F, F, T>>,
           int |-> <<F, "none", F, T, F>>, long |-> <<F, "none", F, T, F>>, short |-> <<F, "none", F, T, F>>, schar |-> <<F, "none", F, T, F>>,
           double |-> <<F, "none", F, T, F>>, float |-> <<F, "none", F, T, F>>, unsigned |-> <<F, "none", F, F, T>>, size_t |-> <<F, "none", F, F, T>>, uchar |-> <<F, "none", F, F, T>>,
           char |-> <<F, "none", T, T, F>>, wchar |-> <<F, "none", T, T, F>> ]

\* ---- actions ----
MetaStart == [kind |-> "vector", x |-> <<>>, level |-> "trace"]
New(st, k, x) == [st EXCEPT !.kind = k, !.x = x]
Put(st, i, v) == [st EXCEPT !.x[i + 1] = v]
Found(x, i, j, v) == \E k \in (i + 1)..j : x[k] = v
\* outcome of a condition: what is said, and whether the program ends
Outcome(st, cond, msg, asserts) == [said |-> ~cond /\ msg # <<>> /\ Shown(st.level), died |-> ~cond /\ asserts]

\* ---- conformance ------------------------------------------------------------------------------------------------
MetaEval(st, e) ==
  CASE e.op = "new" -> LET n == New(st, e.kind, e.x) IN [st |-> n, ok |-> e.all = n.x]
    [] e.op = "put" -> LET n == Put(st, e.i, e.v) IN [st |-> n, ok |-> Has(st.kind, "put") /\ e.all = n.x]
    [] e.op = "get" -> [st |-> st, ok |-> e.ret = st.x[e.i + 1]]
    [] e.op = "size" -> [st |-> st, ok |-> e.ret = Len(st.x)]
    [] e.op = "empty" -> [st |-> st, ok |-> e.ret = (st.x = <<>>)]
    [] e.op = "null" -> [st |-> st, ok |-> e.ret = FALSE]
    [] e.op = "isnull" -> [st |-> st, ok |-> e.ret = (e.what = "nothing" \/ (e.how = "text" /\ e.what = "blank"))]
    [] e.op = "contains" -> [st |-> st, ok |-> e.ret = Found(st.x, e.i, e.j, e.v) /\ e.all = st.x]
    [] e.op = "advance" -> [st |-> st, ok |-> /\ e.at = e.i + e.n /\ e.kept = e.i
                                              /\ (e.at < Len(st.x) => e.ret = <<st.x[e.i + e.n + 1]>>)]
    [] e.op = "equal" -> [st |-> st, ok |-> e.ret = Alike(e.t, e.a, e.b)]
    [] e.op = "cast" -> [st |-> st, ok |-> e.whole = RToInt(e.v) /\ REq(e.single, RFloat(e.v)) /\ REq(e.same, e.v)]
    [] e.op = "level" -> [st |-> [st EXCEPT !.level = e.v], ok |-> TRUE]
    [] e.op \in {"expects", "ensure"} -> [st |-> st, ok |-> LET o == Outcome(st, e.cond = 1, IF "msg" \in DOMAIN e THEN e.msg ELSE <<>>, e.asserts)
                                                            IN e.said = o.said /\ e.died = o.died /\ (~o.said => e.quiet)]
    [] e.op = "type" -> [st |-> st, ok |-> <<e.iterator, e.category, e.char, e.signed, e.unsigned>> = Types[e.t]]
======================================================================================
