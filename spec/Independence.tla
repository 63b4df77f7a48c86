------------------------------- MODULE Independence -------------------------------
(***************************************************************************)
(* Objects side by side.  A machine is an object with a program of steps;  *)
(* alone[m] are the answers of machine m when nothing else happens in the  *)
(* process.  Whatever is made, used, copied, assigned or destroyed in      *)
(* between, and whichever thread does it, the n-th step of an object       *)
(* answers what the n-th step of its machine answers alone, and a copy is  *)
(* an object at the same step of the same machine.                         *)
(***************************************************************************)
EXTENDS FReal, Naturals, Integers, Sequences, FiniteSets, TLC

Machine(e) == <<e.kind, e.f>>
IndependenceStart == [alone |-> << >>, obj |-> << >>]
\* machines that work in single precision, where the arrangement of memory may move the last digits
Single == {"dft_float", "conv_float", "engine_float", "resampler", "file"}
Same(kind, a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : RNear(a[k], b[k], RTen(IF kind \in Single THEN -5 ELSE -9))
Fresh(m) == [m |-> m, at |-> 0]
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

\* the transitions, on the objects alone
Made(obj, id, m) == (id :> Fresh(m)) @@ obj
Stepped(obj, id) == [obj EXCEPT ![id].at = @ + 1]
Copied(obj, id, to) == (to :> obj[id]) @@ obj
Dropped(obj, id) == Without(obj, id)

IndependenceEval(st, e) ==
  CASE e.op = "alone" -> [st |-> [st EXCEPT !.alone = (Machine(e) :> e.y) @@ @], ok |-> TRUE]
    [] e.op = "new" -> [st |-> [st EXCEPT !.obj = Made(@, e.id, Machine(e))], ok |-> TRUE]
    [] e.op = "step" -> [st |-> [st EXCEPT !.obj = Stepped(@, e.id)],
                         ok |-> Same(st.obj[e.id].m[1], e.y, st.alone[st.obj[e.id].m][st.obj[e.id].at + 1])]
    [] e.op = "copy" -> [st |-> IF e.done THEN [st EXCEPT !.obj = Copied(@, e.id, e.to)] ELSE st, ok |-> TRUE]
    [] e.op = "drop" -> [st |-> [st EXCEPT !.obj = Dropped(@, e.id)], ok |-> TRUE]
    \* several threads, each with machines of its own, round after round
    [] e.op = "together" -> [st |-> st, ok |-> /\ Len(e.y) = Len(e.fs)
                                               /\ \A t \in 1..Len(e.y) : LET want == st.alone[<<e.names[t], e.fs[t]>>]
                                                                         IN \A r \in 1..Len(e.y[t]) : \A k \in 1..Len(want) : Same(e.names[t], e.y[t][r][k], want[k])]
===================================================================================
